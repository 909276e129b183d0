------------------------------- MODULE CachesMC -------------------------------
EXTENDS Caches
CONSTANTS a, b, c
\* c holds two b, b holds an a
InnerTree == (a :> <<>>) @@ (b :> <<a>>) @@ (c :> <<b, a, b>>)
\* a and b refer to each other, c to itself and a
InnerLoop == (a :> <<b>>) @@ (b :> <<a>>) @@ (c :> <<c, a>>)
================================================================================
