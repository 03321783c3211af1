SPECIFICATION MCFair
CONSTANTS
  CR <- ACR
  Meaning <- AMeaning
  SetUpOf <- ASetUp
  CallOf <- ACall
  IdentOf <- AIdent
  DCR <- ADCR
  IsPrompt <- AIsPrompt
  PttOf <- APtt
  MaxLines = 1
  MaxData = 3
  MaxIn = 2
  Lines = {"DISC", "TX"}
  Pieces <- APieces
  Ready0 = "open"
PROPERTIES C14E C15L
CHECK_DEADLOCK FALSE
