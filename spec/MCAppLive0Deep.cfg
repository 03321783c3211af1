SPECIFICATION MCFair
CONSTANTS
  CR <- ACR
  Meaning <- AMeaning
  SetUpOf <- ASetUp
  CallOf <- ACall
  IdentOf <- AIdent
  DCR <- ADCR
  IsPrompt <- AIsPrompt
  PttOf <- APtt
  MaxLines = 4
  MaxData = 0
  MaxIn = 0
  Lines = {"OK", "NO", "TX"}
  Pieces <- APieces
  Ready0 = "start"
PROPERTIES C14E C15L
CHECK_DEADLOCK FALSE
