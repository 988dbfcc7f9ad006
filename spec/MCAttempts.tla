---- MODULE MCAttempts ----
EXTENDS Attempts, IOUtils
ToInt(s) == CHOOSE n \in 0..30 : ToString(n) = s
MCMaxLen == ToInt(IOEnv.VERIF_LEN)
====
