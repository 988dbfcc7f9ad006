-------------------------------- MODULE Load --------------------------------
(* Load(path): the JSON value in a file, read once (java/Load.java caches it; *)
(* JsonDeserialize re-reads its file on every evaluation).                    *)
EXTENDS Json
Load(path) == JsonDeserialize(path)
=============================================================================
