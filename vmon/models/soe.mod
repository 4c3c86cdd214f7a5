/* small open economy with a debt-elastic interest rate and adjustment costs */
var d c k h i y r a q tb;
varexo e er;
parameters gam om rho psi rstar dbar alfa phi del rr;
gam = 2; om = 1.455; alfa = .32; phi = .028; rstar = .04; del = .1; rho = .42; psi = .08; dbar = .7442; rr = .6;
model;
  # bet = 1/(1+rstar);
  [name = 'budget'] d = (1+r(-1))*d(-1) - y + c + i + phi/2*(k - k(-1))^2;
  y = a*k(-1)^alfa*h^(1-alfa);
  k = i + (1-del)*k(-1);
  (c - h^om/om)^(-gam) = bet*(1+r)*(c(+1) - h(+1)^om/om)^(-gam);
  h^(om-1)*h = (1-alfa)*y;
  q = 1 + phi*(k - k(-1));
  (c - h^om/om)^(-gam)*q = bet*(c(+1) - h(+1)^om/om)^(-gam)*(alfa*y(+1)/k + 1 - del + q(+1) - 1);
  r = rstar + psi*(exp(d - dbar) - 1) + er;
  log(a) = rho*log(a(-1)) + e;
  tb = 1 - (c + i)/y;
end;
initval;
  d = .7442; h = 1; k = 3.4; y = 1.49; c = 1.12; i = .34; r = .04; a = 1; q = 1; tb = .02;
end;
shocks;
  var e = .0129^2;
  var er; stderr .002;
  var e, er = .000005;
end;
