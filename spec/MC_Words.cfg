SPECIFICATION Spec
CONSTANTS
    Counts = {12, 24}
    Patterns = {1, 5}
    Lasts = {0, 3, 37, 74, 111, 148, 185, 222, 256, 259, 296, 333, 370, 407, 444, 481, 512, 515, 518, 555, 592, 629, 666, 703, 740, 768, 771, 777, 814, 851, 888, 925, 962, 999, 1024, 1027, 1036, 1073, 1110, 1147, 1184, 1221, 1258, 1280, 1283, 1295, 1332, 1369, 1406, 1443, 1480, 1517, 1536, 1539, 1554, 1591, 1628, 1665, 1702, 1739, 1776, 1792, 1795, 1813, 1850, 1887, 1924, 1961, 1998, 2035, 2047}
    Junk = {"upper", "double space", "space after", "space before", "word missing", "word more", "letter", "prefix", "tab"}
    WS <- ToyWS
    Order <- ToyOrder
    HalfOrder <- ToyHalf
    SAdd <- ToySAdd
    SMul <- ToySMul
    SNeg <- ToySNeg
    SInv <- ToySInv
    SRed <- ToySRed
    PG <- ToyG
    PAdd <- ToyPAdd
    PNeg <- ToyPNeg
    PMul <- ToyPMul
    POn <- ToyPOn
    PLift <- ToyPLift
    Sha256 <- RealSha256
    Sha512 <- ToySha512
    Ripemd160 <- ToyRipemd
    HmacSha256 <- ToyHmac256
    HmacSha512 <- ToyHmac512
    Pbkdf2 <- ToyPbkdf2
    BigDigits <- PureDigits
    BigBytes <- PureBytes
    Text <- Ascii
INVARIANTS Valid One Spoilt Export
CHECK_DEADLOCK FALSE
