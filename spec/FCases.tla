---- MODULE FCases ----
\* Generated by lib/frame.py from the replay scenarios of the same names.
EXTENDS Integers, Sequences
FCases == <<
  [name |-> "runa", kind |-> "a", pver |-> <<57,46,56,46,55,45,112,114,111,98,101>>, host |-> [maj |-> 1, min |-> 14, pf |-> "ok", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,116,114,117,101>>, <<105,111,108,111,103,95,116,116,121,105,110,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,105,110,61,116,114,117,101>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]],
  [name |-> "hintsa", kind |-> "a", pver |-> <<57,46,56,46,55,45,112,114,111,98,101>>, host |-> [maj |-> 1, min |-> 14, pf |-> "ok", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,102,97,108,115,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,102,97,108,115,101>>, <<105,111,108,111,103,95,115,116,100,105,110,61,116,114,117,101>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]],
  [name |-> "querya", kind |-> "a", pver |-> <<57,46,56,46,55,45,112,114,111,98,101>>, host |-> [maj |-> 1, min |-> 14, pf |-> "ok", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]],
  [name |-> "factsa", kind |-> "a", pver |-> <<57,46,56,46,55,45,112,114,111,98,101>>, host |-> [maj |-> 1, min |-> 14, pf |-> "ok", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,120>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,116,114,117,101>>, <<105,111,108,111,103,95,116,116,121,105,110,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,105,110,61,116,114,117,101>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]],
  [name |-> "apia", kind |-> "a", pver |-> <<57,46,56,46,55,45,112,114,111,98,101>>, host |-> [maj |-> 1, min |-> 8, pf |-> "ok", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,116,114,117,101>>, <<105,111,108,111,103,95,116,116,121,105,110,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,105,110,61,116,114,117,101>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]],
  [name |-> "nulla", kind |-> "a", pver |-> <<57,46,56,46,55,45,112,114,111,98,101>>, host |-> [maj |-> 1, min |-> 14, pf |-> "null", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,116,114,117,101>>, <<105,111,108,111,103,95,116,116,121,105,110,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,105,110,61,116,114,117,101>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]],
  [name |-> "faila", kind |-> "a", pver |-> <<57,46,56,46,55,45,112,114,111,98,101>>, host |-> [maj |-> 1, min |-> 14, pf |-> "fail", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,116,114,117,101>>, <<105,111,108,111,103,95,116,116,121,105,110,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,105,110,61,116,114,117,101>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]],
  [name |-> "runb", kind |-> "b", pver |-> <<57,46,56,46,55,45,112,114,111,98,101>>, host |-> [maj |-> 1, min |-> 14, pf |-> "ok", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,116,114,117,101>>, <<105,111,108,111,103,95,116,116,121,105,110,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,105,110,61,116,114,117,101>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]],
  [name |-> "hintsb", kind |-> "b", pver |-> <<57,46,56,46,55,45,112,114,111,98,101>>, host |-> [maj |-> 1, min |-> 14, pf |-> "ok", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,102,97,108,115,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,102,97,108,115,101>>, <<105,111,108,111,103,95,115,116,100,105,110,61,116,114,117,101>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]],
  [name |-> "queryb", kind |-> "b", pver |-> <<57,46,56,46,55,45,112,114,111,98,101>>, host |-> [maj |-> 1, min |-> 14, pf |-> "ok", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]],
  [name |-> "factsb", kind |-> "b", pver |-> <<57,46,56,46,55,45,112,114,111,98,101>>, host |-> [maj |-> 1, min |-> 14, pf |-> "ok", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,120>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,116,114,117,101>>, <<105,111,108,111,103,95,116,116,121,105,110,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,105,110,61,116,114,117,101>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]],
  [name |-> "apib", kind |-> "b", pver |-> <<57,46,56,46,55,45,112,114,111,98,101>>, host |-> [maj |-> 1, min |-> 8, pf |-> "ok", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,116,114,117,101>>, <<105,111,108,111,103,95,116,116,121,105,110,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,105,110,61,116,114,117,101>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]],
  [name |-> "nullb", kind |-> "b", pver |-> <<57,46,56,46,55,45,112,114,111,98,101>>, host |-> [maj |-> 1, min |-> 14, pf |-> "null", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,116,114,117,101>>, <<105,111,108,111,103,95,116,116,121,105,110,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,105,110,61,116,114,117,101>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]],
  [name |-> "failb", kind |-> "b", pver |-> <<57,46,56,46,55,45,112,114,111,98,101>>, host |-> [maj |-> 1, min |-> 14, pf |-> "fail", sa |-> "restart", eu |-> <<48>>, eg |-> <<48>>, set |-> <<<<112,108,117,103,105,110,95,100,105,114,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47>>, <<112,108,117,103,105,110,95,112,97,116,104,61,47,117,115,114,47,108,105,98,101,120,101,99,47,115,117,100,111,47,115,117,100,111,95,112,97,105,114,46,115,111>>, <<112,114,111,103,110,97,109,101,61,115,117,100,111>>, <<114,117,110,97,115,95,117,115,101,114,61,114,111,111,116>>>>, usr |-> <<<<99,111,108,115,61,56,48>>, <<99,119,100,61,47,104,111,109,101,47,117>>, <<101,103,105,100,61,49,48,48,48>>, <<101,117,105,100,61,48>>, <<103,105,100,61,49,48,48,48>>, <<103,114,111,117,112,115,61,49,48,48,48,44,49,48,48,49>>, <<104,111,115,116,61,98,111,120>>, <<108,105,110,101,115,61,50,52>>, <<112,103,105,100,61,52,50,52,50>>, <<112,105,100,61,52,50,52,50>>, <<112,112,105,100,61,52,48,48,48>>, <<115,105,100,61,52,48,48,48>>, <<116,99,112,103,105,100,61,52,50,52,50>>, <<117,105,100,61,49,48,48,48>>, <<117,115,101,114,61,97,108,105,99,101>>, <<116,116,121,61,47,86,47,116,116,121>>>>, cmd |-> <<<<99,111,109,109,97,110,100,61,47,98,105,110,47,99,109,100>>, <<114,117,110,97,115,95,117,105,100,61,48>>, <<114,117,110,97,115,95,103,105,100,61,48>>, <<114,117,110,97,115,95,103,114,111,117,112,115,61,48>>, <<105,111,108,111,103,95,116,116,121,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,111,117,116,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,101,114,114,61,116,114,117,101>>, <<105,111,108,111,103,95,116,116,121,105,110,61,116,114,117,101>>, <<105,111,108,111,103,95,115,116,100,105,110,61,116,114,117,101>>>>, env |-> <<>>, opt |-> <<<<115,111,99,107,101,116,95,100,105,114,61,47,86,47,100>>, <<117,115,101,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,117>>, <<112,97,105,114,95,112,114,111,109,112,116,95,112,97,116,104,61,47,86,47,116,112>>>>, argv |-> <<<<99,109,100>>, <<97,114,103>>>>]]
>>
====
