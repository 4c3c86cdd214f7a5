// asset prices: forward-looking only but for the dividend process
var p rf g pd d;
varexo e u;
parameters b s m r1 r2;
b = .9; s = 3; m = .01; r1 = .4; r2 = .2;
model;
  p = b*exp(-s*g(+1))*(p(+1)*exp(g(+1)) + exp(g(+1)));
  1/rf = b*exp(-s*g(+1));
  pd = log(p) - d;
  d = .8*d(-1) + u;
  g = m*(1-r1) + r1*g(-1) + e;
end;
initval; p = 8; rf = 1.145; g = .01; pd = 2.1; d = 0; end;
shocks;
  var e; stderr .02;
  var u; stderr .1;
end;
