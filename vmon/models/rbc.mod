// neoclassical growth with hours
var c, k, n, y, i, r, w, z;
varexo e;
parameters alpha beta delta psi sig rho zss;
alpha = 0.33; beta = 0.99; delta = 0.025; sig = 2; rho = 0.95; psi = 1.75; zss = 1;
model;
  # ibeta = 1/beta;
  c^(-sig)*ibeta = c(+1)^(-sig)*(alpha*z(+1)*(k/n(+1))^(alpha-1) + 1 - delta);
  psi*c^sig/(1 - n) = w;
  w = (1-alpha)*z*(k(-1)/n)^alpha;
  r = alpha*z*(k(-1)/n)^(alpha-1);
  y = z*k(-1)^alpha*n^(1-alpha);
  y = c + i;
  i = k - (1-delta)*k(-1);
  log(z) = rho*log(z(-1)) + (1-rho)*log(zss) + e;
end;
initval;
  k = 9; c = 0.75; n = 0.35; y = 1; i = 0.25; r = 0.035; w = 1.9; z = 1;
end;
shocks;
  var e; stderr 0.01;
end;
