% Executes the statements that come on the standard input, one per line; the answer is the text in
% the variable vho, or the message of the error.
1;
function [vho, vhe] = vhdo(vhl)
  vho = ''; vhe = '';
  try, eval(vhl); catch vhx, vhe = ['E' vhx.message ' ']; end
end
more off; warning('off', 'all'); crash_dumps_octave_core(0);
while true
  l = fgetl(stdin);
  if ~ischar(l), break; end
  [o, e] = vhdo(l);
  if isempty(e), fprintf('\n@@VH+%s\n', o); else fprintf('\n@@VH-%s\n', base64_encode(uint8(e))); end
  fflush(stdout);
end
