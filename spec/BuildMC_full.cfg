SPECIFICATION Spec
CONSTANTS
  Ports = {"a", "b"}
  Vers = {"1", "2"}
  Junk = {"junk"}
  Others = {}
  Most = 9
CONSTRAINT Small
CHECK_DEADLOCK FALSE
