---------------------------- MODULE MCValidation ----------------------------
(* explores Validation for one kind of draft and prints every draft *)
EXTENDS Validation, IOUtils
MCKinds == {IOEnv.VERIF_KIND}
MCMaxGiven == atoi(IOEnv.VERIF_GIVEN)
=============================================================================
