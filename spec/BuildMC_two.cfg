SPECIFICATION Spec
CONSTANTS
  Ports = {"a", "b"}
  Vers = {"1", "2"}
  Junk = {"junk"}
  Others = {"y"}
  Most = 2
CONSTRAINT Small
CHECK_DEADLOCK FALSE
