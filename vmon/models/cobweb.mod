var p q s;
varexo ed es;
parameters a b c d;
a = 2; b = .6; c = .4; d = .1;
model;
  q = a - b*p + ed;
  s = .9 + c*p(-1) + d*p + es;
  q = s;
end;
initval; q = 1.4; s = 1.4; p = 1; end;
shocks; var ed; stderr .1; var es; stderr .05; corr ed, es = .4; end;
