"""The published layout of an IMMA1 record: per attachment, fields in order as name, width and kind: digits = number told in units of
10**-kind, b = base 36 digit, c = text. Attachment 97 (errors) is left out: the width of its data depends on another table."""

LAYOUT = {
    0: (
        "YR:4:0 MO:2:0 DY:2:0 HR:4:2 LAT:5:2 LON:6:2 IM:2:0 ATTC:1:b TI:1:0 LI:1:0 DS:1:0 VS:1:0 NID:2:0 II:2:0 ID:9:c C1:2:c DI:1:0 D:3:0 WI:1:0 "
        "W:3:1 VI:1:0 VV:2:0 WW:2:0 W1:1:0 SLP:5:1 A:1:0 PPP:3:1 IT:1:0 AT:4:1 WBTI:1:0 WBT:4:1 DPTI:1:0 DPT:4:1 SI:2:0 SST:4:1 N:1:0 NH:1:0 CL:1:b "
        "HI:1:0 H:1:b CM:1:b CH:1:b WD:2:0 WP:2:0 WH:2:0 SD:2:0 SP:2:0 SH:2:0"),
    1: (
        "BSI:1:0 B10:3:0 B1:2:0 DCK:3:0 SID:3:0 PT:2:0 DUPS:2:0 DUPC:1:0 TC:1:0 PB:1:0 WX:1:0 SX:1:0 C2:2:0 SQZ:1:b SQA:1:b AQZ:1:b AQA:1:b UQZ:1:b "
        "UQA:1:b VQZ:1:b VQA:1:b PQZ:1:b PQA:1:b DQZ:1:b DQA:1:b ND:1:0 SF:1:b AF:1:b UF:1:b VF:1:b PF:1:b RF:1:b ZNC:1:b WNC:1:b BNC:1:b XNC:1:b "
        "YNC:1:b PNC:1:b ANC:1:b GNC:1:b DNC:1:b SNC:1:b CNC:1:b ENC:1:b FNC:1:b TNC:1:b QCE:2:0 LZ:1:0 QCZ:2:0"),
    2: (
        "OS:1:0 OP:1:0 FM:2:0 IX:1:0 W2:1:0 SGN:1:0 SGT:1:b SGH:2:0 WMI:1:0 SD2:2:0 SP2:2:0 SH2:2:0 IS:1:0 ES:2:0 RS:1:0 IC1:1:b IC2:1:b IC3:1:b "
        "IC4:1:b IC5:1:b IR:1:0 RRR:3:0 TR:1:0 QCI:1:0 QI1:1:0 QI2:1:0 QI3:1:0 QI4:1:0 QI5:1:0 QI6:1:0 QI7:1:0 QI8:1:0 QI9:1:0 QI10:1:0 QI11:1:0 "
        "QI12:1:0 QI13:1:0 QI14:1:0 QI15:1:0 QI16:1:0 QI17:1:0 QI18:1:0 QI19:1:0 QI20:1:0 QI21:1:0 HDG:3:0 COG:3:0 SOG:2:0 SLL:2:0 SLHH:3:0 RWD:3:0 "
        "RWS:3:1"),
    3: (
        "CCCC:4:c BUID:6:c BMP:5:1 BSWU:4:1 SWU:4:1 BSWV:4:1 SWV:4:1 BSAT:4:1 BSRH:3:0 SRH:3:0 SIX:1:0 BSST:4:1 MST:1:0 MSH:3:0 BY:4:0 BM:2:0 BD:2:0 "
        "BH:2:0 BFL:2:0"),
    4: (
        "C1M:2:c OPM:2:0 KOV:2:c COR:2:c TOB:3:c TOT:3:c EOT:2:c LOT:2:c TOH:1:c EOH:2:c SIM:3:c LOV:3:0 DOS:2:0 HOP:3:0 HOT:3:0 HOB:3:0 HOA:3:0 "
        "SMF:5:0 SME:5:0 SMV:2:0"),
    5: (
        "OS:1:0 OP:1:0 FM:1:b IMMV:1:b IX:1:0 W2:1:0 WMI:1:0 SD2:2:0 SP2:2:0 SH2:2:0 IS:1:0 ES:2:0 RS:1:0 IC1:1:b IC2:1:b IC3:1:b IC4:1:b IC5:1:b "
        "IR:1:0 RRR:3:0 TR:1:0 NU:1:c QCI:1:0 QI1:1:0 QI2:1:0 QI3:1:0 QI4:1:0 QI5:1:0 QI6:1:0 QI7:1:0 QI8:1:0 QI9:1:0 QI10:1:0 QI11:1:0 QI12:1:0 "
        "QI13:1:0 QI14:1:0 QI15:1:0 QI16:1:0 QI17:1:0 QI18:1:0 QI19:1:0 QI20:1:0 QI21:1:0 HDG:3:0 COG:3:0 SOG:2:0 SLL:2:0 SLHH:3:0 RWD:3:0 RWS:3:1 "
        "QI22:1:0 QI23:1:0 QI24:1:0 QI25:1:0 QI26:1:0 QI27:1:0 QI28:1:0 QI29:1:0 RH:4:1 RHI:1:0 AWSI:1:0 IMONO:7:0"),
    6: (
        "CCCC:4:c BUID:6:c FBSRC:1:0 BMP:5:1 BSWU:4:1 SWU:4:1 BSWV:4:1 SWV:4:1 BSAT:4:1 BSRH:3:0 SRH:3:0 BSST:5:1 MST:1:0 MSH:4:0 BY:4:0 BM:2:0 BD:2:0 "
        "BH:2:0 BFL:2:0"),
    7: (
        "MDS:1:0 C1M:2:c OPM:2:0 KOV:2:c COR:2:c TOB:3:c TOT:3:c EOT:2:c LOT:2:c TOH:1:c EOH:2:c SIM:3:c LOV:3:0 DOS:2:0 HOP:3:0 HOT:3:0 HOB:3:0 "
        "HOA:3:0 SMF:5:0 SME:5:0 SMV:2:0"),
    8: (
        "OTV:5:3 OTZ:4:2 OSV:5:3 OSZ:4:2 OOV:4:2 OOZ:4:2 OPV:4:2 OPZ:4:2 OSIV:5:2 OSIZ:4:2 ONV:5:2 ONZ:4:2 OPHV:3:2 OPHZ:4:2 OCV:4:2 OCZ:4:2 OAV:3:2 "
        "OAZ:4:2 OPCV:4:1 OPCZ:4:2 ODV:2:1 ODZ:4:2 PUID:10:c"),
    9: (
        "CCe:1:b WWe:2:0 Ne:1:0 NHe:1:0 He:1:0 CLe:2:0 CMe:2:0 CHe:1:0 AM:3:2 AH:3:2 UM:1:0 UH:1:0 SBI:1:0 SA:4:1 RI:4:2"),
    95: (
        "ICNR:2:0 FNR:2:0 DPRO:2:0 DPRP:2:0 UFR:1:0 MFGR:7:0 MFGSR:7:0 MAR:7:0 MASR:7:0 BCR:7:0 ARCR:4:c CDR:8:0 ASIR:1:0"),
    96: (
        "ICNI:2:0 FNI:2:0 JVAD:1:b VAD:6:0 IVAU1:1:b JVAU1:1:b VAU1:6:0 IVAU2:1:b JVAU2:1:b VAU2:6:0 IVAU3:1:b JVAU3:1:b VAU3:6:0 VQC:1:0 ARCI:4:c "
        "CDI:8:0 ASII:1:0"),
    98: (
        "UID:6:c RN1:1:b RN2:1:b RN3:1:b RSA:1:0 IRF:1:0"),
    99: (
        "ATTE:1:0 SUPD:*:c"),
}
LAYOUT = dict((a, [(n, None if w == "*" else int(w), k) for n, w, k in (f.split(":") for f in text.split())]) for a, text in LAYOUT.items())
