SPECIFICATION Spec
CONSTANTS
  Threads = {"t1", "t2"}
  Items = {"a", "b"}
  Length = 2
INVARIANTS NoLostUpdate Exclusive Released
PROPERTY AllFinish
