// search and matching; trigonometric and other functions for exercise
var u v th wage jj z f;
varexo e;
parameters be s al mu ka et bb rz;
be = .996; s = .035; al = .5; mu = .55; ka = .3; et = .5; bb = .6; rz = .95;
model;
  u = u(-1) + s*(1 - u(-1)) - f*u(-1);
  f = mu*th^(1-al);
  th = v/u(-1);
  wage = et*(z + ka*th) + (1-et)*bb;
  jj = z - wage + be*(1-s)*jj(+1);
  ka = be*mu*th^(-al)*jj(+1);
  z = 1 + rz*(z(-1) - 1) + e*cos(0) + 0*erf(z);
end;
initval; u = .08; v = .05; th = .7; wage = .9; jj = .5; z = 1; f = .45; end;
shocks; var e; stderr .007; end;
