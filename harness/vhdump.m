function s = vhdump(v)
% a value as JSON: class, size, contents (bytes as base64)
  d = sprintf('%d,', size(v)); d = d(1:end-1);
  if ischar(v)
    s = sprintf('{"c":"char","d":[%s],"v":"%s"}', d, vhbytes(uint8(v(:))));
  elseif iscell(v)
    p = cell(1, numel(v)); for i = 1:numel(v), p{i} = vhdump(v{i}); end
    s = ['{"c":"cell","d":[' d '],"v":[' strjoin(p, ',') ']}'];
  elseif isstruct(v)
    f = fieldnames(v); p = cell(1, numel(f));
    if numel(v) == 1, for i = 1:numel(f), p{i} = ['["' vhbytes(uint8(f{i})) '",' vhdump(v.(f{i})) ']']; end, else p = {}; end
    s = ['{"c":"struct","d":[' d '],"v":[' strjoin(p, ',') ']}'];
  elseif isa(v, 'uint8')
    s = sprintf('{"c":"uint8","d":[%s],"v":"%s"}', d, vhbytes(v(:)));
  elseif isa(v, 'uint16')
    s = sprintf('{"c":"uint16","d":[%s],"v":"%s"}', d, vhbytes(typecast(v(:), 'uint8')));
  elseif islogical(v) || isnumeric(v)
    p = sprintf('%.17g,', double(v(:)));
    s = sprintf('{"c":"%s","d":[%s],"v":[%s]}', class(v), d, p(1:end-1));
  else
    s = sprintf('{"c":"%s","d":[%s],"v":[]}', class(v), d);
  end
end
function s = vhbytes(b)
  if isempty(b), s = ''; else s = base64_encode(b); end
end
