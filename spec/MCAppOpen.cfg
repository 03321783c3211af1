SPECIFICATION MCSpec
CONSTANTS
  CR <- ACR
  Meaning <- AMeaning
  SetUpOf <- ASetUp
  CallOf <- ACall
  IdentOf <- AIdent
  DCR <- ADCR
  IsPrompt <- AIsPrompt
  PttOf <- APtt
  MaxLines = 1
  MaxData = 3
  MaxIn = 2
  Lines = {"DISC", "TX"}
  Pieces <- APieces
  Ready0 = "open"
INVARIANTS AppSetUp AppFails AppEnds AppPrompt AppRig Printed Said Rests
CHECK_DEADLOCK FALSE
