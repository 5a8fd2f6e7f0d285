SPECIFICATION Spec
CONSTANTS
  Threads = {"t1", "t2", "t3"}
  Items = {"a", "b"}
  Length = 1
INVARIANTS NoLostUpdate Exclusive Released
PROPERTY AllFinish
