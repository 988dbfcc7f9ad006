---- MODULE MCSolving ----
(* explores Solving and prints every history of full length that ends with solving *)
EXTENDS Solving, IOUtils
ToInt(s) == CHOOSE n \in 0..30 : ToString(n) = s
MCMaxLen == ToInt(IOEnv.VERIF_LEN)
====
