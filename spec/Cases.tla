---- MODULE Cases ----
\* Generated by lib/cases.py from the replay scenarios of the same names.
EXTENDS Integers, Sequences
Cases == <<
  [name |-> "root", hosts |-> <<[maj |-> 1, min |-> 14, pf |-> "ok", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,116,114,117,101>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]>>, world |-> <<[p |-> <<47,86,47,100>>, k |-> "dir", u |-> <<48>>, g |-> <<48>>, m |-> 493, d |-> <<>>], [p |-> <<47,86,47,116,116,121>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 438, d |-> <<>>], [p |-> <<47,86,47,116,117>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<85,37,117,10>>], [p |-> <<47,86,47,116,112>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<80,37,112,10>>]>>, who |-> <<[u |-> <<48>>, g |-> <<48>>, h |-> 1], [u |-> <<48>>, g |-> <<48>>, h |-> 1], [u |-> <<54,53,53,51,52>>, g |-> <<54,53,53,51,52>>, h |-> 1]>>, bytes |-> {110, 121}, slow |-> FALSE, plan |-> <<<<[c |-> "open"], [c |-> "log", s |-> "ttyout", d |-> <<<<65, 3>>>>], [c |-> "log", s |-> "stdin", d |-> <<<<66, 2>>>>], [c |-> "winsize", l |-> <<51,48>>, w |-> <<49,48,48>>], [c |-> "log", s |-> "stderr", d |-> <<<<67, 2>>>>], [c |-> "close"]>>>>, focus |-> {}],
  [name |-> "user", hosts |-> <<[maj |-> 1, min |-> 14, pf |-> "ok", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,50,48,48,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,116,114,117,101>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]>>, world |-> <<[p |-> <<47,86,47,100>>, k |-> "dir", u |-> <<48>>, g |-> <<48>>, m |-> 493, d |-> <<>>], [p |-> <<47,86,47,116,116,121>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 438, d |-> <<>>], [p |-> <<47,86,47,116,117>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<85,37,117,10>>], [p |-> <<47,86,47,116,112>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<80,37,112,10>>]>>, who |-> <<[u |-> <<50,48,48,48>>, g |-> <<50,48,48,48>>, h |-> 1], [u |-> <<54,53,53,51,52>>, g |-> <<54,53,53,51,52>>, h |-> 1], [u |-> <<49,48,48,48>>, g |-> <<49,48,48,48>>, h |-> 1]>>, bytes |-> {110, 121}, slow |-> FALSE, plan |-> <<<<[c |-> "open"], [c |-> "log", s |-> "stdout", d |-> <<<<65, 3>>>>], [c |-> "close"]>>>>, focus |-> {}],
  [name |-> "group", hosts |-> <<[maj |-> 1, min |-> 14, pf |-> "ok", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,103,114,111,117,112,61,103,114,112>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,49,48,48,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,116,114,117,101>>, <<114,117,110,97,115,95,101,103,105,100,61,51,48,48,48>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]>>, world |-> <<[p |-> <<47,86,47,100>>, k |-> "dir", u |-> <<48>>, g |-> <<48>>, m |-> 493, d |-> <<>>], [p |-> <<47,86,47,116,116,121>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 438, d |-> <<>>], [p |-> <<47,86,47,116,117>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<85,37,117,10>>], [p |-> <<47,86,47,116,112>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<80,37,112,10>>]>>, who |-> <<[u |-> <<49,48,48,49>>, g |-> <<51,48,48,48>>, h |-> 1], [u |-> <<54,53,53,51,52>>, g |-> <<54,53,53,51,52>>, h |-> 1], [u |-> <<49,48,48,48>>, g |-> <<49,48,48,48>>, h |-> 1]>>, bytes |-> {110, 121}, slow |-> FALSE, plan |-> <<<<[c |-> "open"], [c |-> "log", s |-> "stdout", d |-> <<<<65, 3>>>>], [c |-> "close"]>>>>, focus |-> {}],
  [name |-> "stale", hosts |-> <<[maj |-> 1, min |-> 14, pf |-> "ok", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,116,114,117,101>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]>>, world |-> <<[p |-> <<47,86,47,100>>, k |-> "dir", u |-> <<48>>, g |-> <<48>>, m |-> 493, d |-> <<>>], [p |-> <<47,86,47,116,116,121>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 438, d |-> <<>>], [p |-> <<47,86,47,116,117>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<85,37,117,10>>], [p |-> <<47,86,47,116,112>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<80,37,112,10>>], [p |-> <<47,86,47,100,47,49,48,48,48,46,52,50,52,50,46,115,111,99,107>>, k |-> "sock", u |-> <<48>>, g |-> <<48>>, m |-> 511, d |-> <<>>]>>, who |-> <<[u |-> <<48>>, g |-> <<48>>, h |-> 1], [u |-> <<54,53,53,51,52>>, g |-> <<54,53,53,51,52>>, h |-> 1]>>, bytes |-> {110, 121}, slow |-> FALSE, plan |-> <<<<[c |-> "open"], [c |-> "close"]>>>>, focus |-> {}],
  [name |-> "slow", hosts |-> <<[maj |-> 1, min |-> 14, pf |-> "ok", sa |-> "norestart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,116,114,117,101>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]>>, world |-> <<[p |-> <<47,86,47,100>>, k |-> "dir", u |-> <<48>>, g |-> <<48>>, m |-> 493, d |-> <<>>], [p |-> <<47,86,47,116,116,121>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 438, d |-> <<>>], [p |-> <<47,86,47,116,117>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<85,37,117,10>>], [p |-> <<47,86,47,116,112>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<80,37,112,10>>]>>, who |-> <<[u |-> <<48>>, g |-> <<48>>, h |-> 1]>>, bytes |-> {110, 121}, slow |-> TRUE, plan |-> <<<<[c |-> "open"], [c |-> "log", s |-> "ttyout", d |-> <<<<65, 150000>>>>], [c |-> "log", s |-> "stdout", d |-> <<<<66, 150000>>>>], [c |-> "log", s |-> "stderr", d |-> <<<<67, 3>>>>], [c |-> "close"]>>>>, focus |-> {}],
  [name |-> "notty", hosts |-> <<[maj |-> 1, min |-> 14, pf |-> "ok", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,116,114,117,101>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]>>, world |-> <<[p |-> <<47,86,47,100>>, k |-> "dir", u |-> <<48>>, g |-> <<48>>, m |-> 493, d |-> <<>>], [p |-> <<47,86,47,116,117>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<85,37,117,10>>], [p |-> <<47,86,47,116,112>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<80,37,112,10>>]>>, who |-> <<[u |-> <<48>>, g |-> <<48>>, h |-> 1]>>, bytes |-> {0, 89}, slow |-> FALSE, plan |-> <<<<[c |-> "open"], [c |-> "winsize", l |-> <<49>>, w |-> <<50>>], [c |-> "close"]>>>>, focus |-> {}],
  [name |-> "dir", hosts |-> <<[maj |-> 1, min |-> 14, pf |-> "ok", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,116,114,117,101>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]>>, world |-> <<[p |-> <<47,86,47,100>>, k |-> "dir", u |-> <<48>>, g |-> <<48>>, m |-> 509, d |-> <<>>], [p |-> <<47,86,47,116,116,121>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 438, d |-> <<>>], [p |-> <<47,86,47,116,117>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<85,10>>], [p |-> <<47,86,47,116,112>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<80,10>>]>>, who |-> <<[u |-> <<48>>, g |-> <<48>>, h |-> 1]>>, bytes |-> {110, 121}, slow |-> FALSE, plan |-> <<<<[c |-> "open"], [c |-> "log", s |-> "stdout", d |-> <<<<65, 1>>>>], [c |-> "close"]>>>>, focus |-> {}],
  [name |-> "occ", hosts |-> <<[maj |-> 1, min |-> 14, pf |-> "ok", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,116,114,117,101>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]>>, world |-> <<[p |-> <<47,86,47,100>>, k |-> "dir", u |-> <<48>>, g |-> <<48>>, m |-> 493, d |-> <<>>], [p |-> <<47,86,47,116,116,121>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 438, d |-> <<>>], [p |-> <<47,86,47,116,117>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<85,37,117,10>>], [p |-> <<47,86,47,116,112>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<80,37,112,10>>], [p |-> <<47,86,47,100,47,49,48,48,48,46,52,50,52,50,46,115,111,99,107>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 384, d |-> <<>>]>>, who |-> <<[u |-> <<48>>, g |-> <<48>>, h |-> 1]>>, bytes |-> {110, 121}, slow |-> FALSE, plan |-> <<<<[c |-> "open"], [c |-> "log", s |-> "stdout", d |-> <<<<65, 1>>>>], [c |-> "close"]>>>>, focus |-> {}],
  [name |-> "ug", hosts |-> <<[maj |-> 1, min |-> 14, pf |-> "ok", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>, <<114,117,110,97,115,95,103,114,111,117,112,61,103,114,112>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,50,48,48,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,116,114,117,101>>, <<114,117,110,97,115,95,101,103,105,100,61,51,48,48,48>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]>>, world |-> <<[p |-> <<47,86,47,100>>, k |-> "dir", u |-> <<48>>, g |-> <<48>>, m |-> 493, d |-> <<>>], [p |-> <<47,86,47,116,116,121>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 438, d |-> <<>>], [p |-> <<47,86,47,116,117>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<85,37,117,10>>], [p |-> <<47,86,47,116,112>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<80,37,112,10>>]>>, who |-> <<[u |-> <<50,48,48,48>>, g |-> <<51,48,48,48>>, h |-> 1]>>, bytes |-> {110, 121}, slow |-> FALSE, plan |-> <<<<[c |-> "open"], [c |-> "log", s |-> "stdout", d |-> <<<<65, 1>>>>], [c |-> "close"]>>>>, focus |-> {}],
  [name |-> "exempt", hosts |-> <<[maj |-> 1, min |-> 14, pf |-> "ok", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,116,114,117,101>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>, <<103,105,100,115,95,101,120,101,109,112,116,101,100,61,49,48,48,49>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]>>, world |-> <<[p |-> <<47,86,47,100>>, k |-> "dir", u |-> <<48>>, g |-> <<48>>, m |-> 493, d |-> <<>>], [p |-> <<47,86,47,116,116,121>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 438, d |-> <<>>], [p |-> <<47,86,47,116,117>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<85,37,117,10>>], [p |-> <<47,86,47,116,112>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<80,37,112,10>>]>>, who |-> <<[u |-> <<48>>, g |-> <<48>>, h |-> 1]>>, bytes |-> {110, 121}, slow |-> FALSE, plan |-> <<<<[c |-> "open"], [c |-> "log", s |-> "stdin", d |-> <<<<66, 2>>>>], [c |-> "log", s |-> "stdout", d |-> <<<<65, 1>>>>], [c |-> "winsize", l |-> <<49>>, w |-> <<50>>], [c |-> "close"]>>>>, focus |-> {}],
  [name |-> "facts", hosts |-> <<[maj |-> 1, min |-> 14, pf |-> "ok", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,120>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,116,114,117,101>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]>>, world |-> <<[p |-> <<47,86,47,100>>, k |-> "dir", u |-> <<48>>, g |-> <<48>>, m |-> 493, d |-> <<>>], [p |-> <<47,86,47,116,116,121>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 438, d |-> <<>>], [p |-> <<47,86,47,116,117>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<85,37,117,10>>], [p |-> <<47,86,47,116,112>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<80,37,112,10>>]>>, who |-> <<[u |-> <<48>>, g |-> <<48>>, h |-> 1]>>, bytes |-> {110, 121}, slow |-> FALSE, plan |-> <<<<[c |-> "open"], [c |-> "log", s |-> "stdout", d |-> <<<<65, 1>>>>], [c |-> "close"]>>>>, focus |-> {}],
  [name |-> "api", hosts |-> <<[maj |-> 1, min |-> 8, pf |-> "ok", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,116,114,117,101>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]>>, world |-> <<[p |-> <<47,86,47,100>>, k |-> "dir", u |-> <<48>>, g |-> <<48>>, m |-> 493, d |-> <<>>], [p |-> <<47,86,47,116,116,121>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 438, d |-> <<>>], [p |-> <<47,86,47,116,117>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<85,37,117,10>>], [p |-> <<47,86,47,116,112>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<80,37,112,10>>]>>, who |-> <<[u |-> <<48>>, g |-> <<48>>, h |-> 1]>>, bytes |-> {110, 121}, slow |-> FALSE, plan |-> <<<<[c |-> "open"], [c |-> "log", s |-> "stdout", d |-> <<<<65, 1>>>>], [c |-> "close"]>>>>, focus |-> {}],
  [name |-> "two", hosts |-> <<[maj |-> 1, min |-> 14, pf |-> "ok", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,110,111,110,101>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,116,114,117,101>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>], [maj |-> 1, min |-> 14, pf |-> "ok", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,51,52,51>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,50>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,110,111,110,101>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,50,48,48,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,116,114,117,101>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]>>, world |-> <<[p |-> <<47,86,47,100>>, k |-> "dir", u |-> <<48>>, g |-> <<48>>, m |-> 493, d |-> <<>>], [p |-> <<47,86,47,116,116,121>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 438, d |-> <<>>], [p |-> <<47,86,47,116,117>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<85,37,117,10>>], [p |-> <<47,86,47,116,112>>, k |-> "reg", u |-> <<48>>, g |-> <<48>>, m |-> 420, d |-> <<80,37,112,10>>]>>, who |-> <<[u |-> <<48>>, g |-> <<48>>, h |-> 1], [u |-> <<50,48,48,48>>, g |-> <<50,48,48,48>>, h |-> 2], [u |-> <<48>>, g |-> <<48>>, h |-> 2]>>, bytes |-> {110, 121}, slow |-> FALSE, plan |-> <<<<[c |-> "open"], [c |-> "log", s |-> "stdout", d |-> <<<<65, 2>>>>], [c |-> "close"]>>, <<[c |-> "open"], [c |-> "log", s |-> "stdout", d |-> <<<<66, 2>>>>], [c |-> "close"]>>>>, focus |-> {"C20"}]
>>
====
