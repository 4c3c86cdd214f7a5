% sticky prices with habits, indexation and interest smoothing
var pi x r a v m lam;
varexo ea, em, eu;
parameters beta h sig kap iota phip phix rhor rhoa rhov;
beta = .99; h = .6; sig = 1.5; kap = .1; iota = .3; phip = 1.8; phix = .2; rhor = .7; rhoa = .9; rhov = .5;
model(linear);
  lam = -sig/(1-h)*(x - h*x(-1));
  lam = lam(+1) + r - pi(+1) + (1 - rhoa)*a;
  pi = beta/(1+beta*iota)*pi(+1) + iota/(1+beta*iota)*pi(-1) + kap*(x - .3*lam) + v;
  r = rhor*r(-1) + (1-rhor)*(phip*pi + phix*(x - x(-1))) + em;
  a = rhoa*a(-1) + ea;
  v = rhov*v(-1) + eu;
  m = x - .5*r;
end;
shocks;
  var ea; stderr .6;
  var em; stderr .25;
  var eu = .01;
  corr ea, eu = -.3;
end;
