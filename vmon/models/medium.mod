% a linear model of medium size: wages, prices, capital, utilisation (deviations in percent)
var c inve y lab pk zcap k kp rk w mc pinf r wm  g b qs ms spinf sw ky;
varexo ea eb eg eqs em epinf ew;
parameters h sc cyg ciy phi psi al del be sl xip xiw ip iw rpi ry rr rg rb rq rm rp rw ca;
h = .7; sc = 1.4; cyg = .18; ciy = .17; phi = 5.5; psi = .5; al = .2; del = .025; be = .9985; sl = 1.9; xip = .66; xiw = .7;
ip = .24; iw = .58; rpi = 2; ry = .08; rr = .81; rg = .97; rb = .22; rq = .71; rm = .15; rp = .8; rw = .8; ca = 1 - cyg - ciy;
model(linear);
  # kp1 = (1-xip)*(1-xip*be)/xip/(1+be*ip);
  # kw1 = (1-xiw)*(1-xiw*be)/xiw/(1+be)/4;
  # cr = 1/be - 1 + del;
  mc = al*rk + (1-al)*w - .5*sw(-1);
  zcap = (1-psi)/psi*rk;
  rk = w + lab - k;
  k = kp(-1) + zcap;
  inve = 1/(1+be)*(inve(-1) + be*inve(+1) + pk/phi) + qs;
  pk = -r + pinf(+1) + b + cr/(cr + 1 - del)*rk(+1) + (1-del)/(cr + 1 - del)*pk(+1);
  c = h/(1+h)*c(-1) + 1/(1+h)*c(+1) + .3*(lab - lab(+1)) - (1-h)/((1+h)*sc)*(r - pinf(+1)) + b;
  y = ca*c + ciy*inve + g + .03*zcap;
  y = 1.6*(al*k + (1-al)*lab + ms);
  pinf = be/(1+be*ip)*pinf(+1) + ip/(1+be*ip)*pinf(-1) + kp1*mc + spinf;
  w = 1/(1+be)*w(-1) + be/(1+be)*(w(+1) + pinf(+1)) - (1+be*iw)/(1+be)*pinf + iw/(1+be)*pinf(-1) + kw1*(wm - w) + sw;
  wm = sl*lab + sc*(c - h*c(-1))/(1-h);
  r = rpi*(1-rr)*pinf + ry*(1-rr)*(y - ms) + rr*r(-1) + em;
  ms = .95*ms(-1) + ea;
  b = rb*b(-1) + eb;
  g = rg*g(-1) + eg + .5*ea;
  qs = rq*qs(-1) + eqs;
  spinf = rp*spinf(-1) + epinf;
  sw = rw*sw(-1) + ew;
  kp = (1-del)*kp(-1) + del*inve + del*phi*qs;
  ky = kp - y;
end;
shocks;
  var ea; stderr .46;
  var eb; stderr .24;
  var eg; stderr .53;
  var eqs; stderr .45;
  var em; stderr .24;
  var epinf; stderr .14;
  var ew; stderr .24;
end;
