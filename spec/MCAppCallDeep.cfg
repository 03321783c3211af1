SPECIFICATION MCSpec
CONSTANTS
  CR <- ACR
  Meaning <- AMeaning
  SetUpOf <- ASetUp
  CallOf <- ACall
  IdentOf <- AIdent
  DCR <- ADCR
  IsPrompt <- AIsPrompt
  PttOf <- APtt
  MaxLines = 4
  MaxData = 2
  MaxIn = 1
  Lines = {"OK", "NO", "CONN", "DISC", "TX"}
  Pieces <- APieces
  Ready0 = "called"
INVARIANTS AppSetUp AppFails AppEnds AppPrompt AppRig Printed Said Rests
CHECK_DEADLOCK FALSE
