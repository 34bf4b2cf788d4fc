SPECIFICATION Spec
INVARIANTS NoHistory CacheSound Preferred OnlyValid
CONSTANTS Length = 3
 Backends = {"numpy", "auto"}
