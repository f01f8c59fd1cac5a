SPECIFICATION Spec
CONSTANTS
  Ns = {2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,33,35,36,37,40,41,43,45,47,48,49,50,53,54,60,64,70,71,72,75,80,90,97,100,120,144,180,240}
INVARIANTS Contiguous Inside Covered Uniform Symmetric FullTurn Emit
CHECK_DEADLOCK FALSE
