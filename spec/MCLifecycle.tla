---- MODULE MCLifecycle ----
(* explores Lifecycle and prints every history of full length *)
EXTENDS Lifecycle, IOUtils
ToInt(s) == CHOOSE n \in 0..30 : ToString(n) = s
MCMaxLen == ToInt(IOEnv.VERIF_LEN)
MCWithFiles == IOEnv.VERIF_FILES = "1"
MCMaxModels == ToInt(IOEnv.VERIF_MODELS)
====
