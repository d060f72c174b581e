function [image, region, properties, data] = vhcallback(state, data)
% records what it is given and answers with the next planned step
  global VHS VHK VHO
  VHO{end + 1} = vhdump({state, data}); VHK = VHK + 1;
  if VHK > numel(VHS), error('no step is left'); end
  s = VHS{VHK};
  if ischar(s), error(s); end
  image = s{1}; region = s{2}; properties = s{3}; data = s{4};
end
