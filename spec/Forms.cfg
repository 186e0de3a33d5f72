SPECIFICATION Spec
CONSTANTS
  Sizes = {1,2,3,5}
  Concs = {1,2,3}
  Btos = {20,100,250}
  Rets = {150,1000}
  DSize = 256
  DConc = 5
  DBto = 50
  DRet = 0
CHECK_DEADLOCK FALSE
