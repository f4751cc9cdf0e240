SPECIFICATION Spec
INVARIANTS Laws FlLaws
CHECK_DEADLOCK FALSE
CONSTANT As = {0,1,2,3,7,100,127,128,129,200,254,255}
CONSTANT Bs = {0,1,2,3,5,7,8,10,16,31,64,127,128,129,254,255}
