SPECIFICATION Spec
CONSTANTS
  Ports = {"a", "b", "c"}
  Vers = {"1"}
  Junk = {"junk"}
  Others = {}
  Most = 2
CONSTRAINT Small
CHECK_DEADLOCK FALSE
