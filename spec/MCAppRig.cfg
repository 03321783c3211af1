SPECIFICATION MCSpec
CONSTANTS
  CR <- ACR
  Meaning <- AMeaning
  SetUpOf <- ASetUp
  CallOf <- ACall
  IdentOf <- AIdent
  DCR <- ADCR
  IsPrompt <- AIsPrompt
  PttOf <- APtt
  MaxLines = 4
  MaxData = 0
  MaxIn = 1
  Lines = {"DISC", "TX", "RX"}
  Pieces <- APieces
  Ready0 = "open"
INVARIANTS AppSetUp AppFails AppEnds AppPrompt AppRig Printed Said Rests
CHECK_DEADLOCK FALSE
