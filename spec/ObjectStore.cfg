CONSTANTS Threads = {t1, t2}
          Objects = {a, b}
          Packs = {p}
SPECIFICATION Spec
INVARIANTS TypeOK CanReturn NotFoundIsAbsence WriteIsStored SeenOrAbsent HeldIsPacked
PROPERTIES ReadsChangeNothing
CHECK_DEADLOCK FALSE
