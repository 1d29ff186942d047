INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 WHash = 32
 WInt = 4
 WAmt = 8
 WS = 32
 Order <- RealOrder
 HalfOrder <- RealHalfOrder
 Sha256 <- RealSha256
 Sha512 <- RealSha512
 Ripemd160 <- RealRipemd160
 HmacSha256 <- RealHmacSha256
 HmacSha512 <- RealHmacSha512
 Pbkdf2 <- RealPbkdf2Sha512
 SAdd <- RealSAdd
 SMul <- RealSMul
 SNeg <- RealSNeg
 SInv <- RealSInv
 SRed <- RealSRed
 PG <- RealPG
 PAdd <- RealPAdd
 PNeg <- RealPNeg
 PMul <- RealPMul
 POn <- RealPOn
 PLift <- RealPLift
 Text <- Ascii
 BigDigits <- RealBigDigits
 BigBytes <- RealBigBytes
