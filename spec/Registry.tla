------------------------------ MODULE Registry ------------------------------
(* Assigned code points and their mnemonics. *)
EXTENDS Bytes

TypeReg == <<
  <<1, "A">>, <<2, "NS">>, <<3, "MD">>, <<4, "MF">>, <<5, "CNAME">>, <<6, "SOA">>,
  <<7, "MB">>, <<8, "MG">>, <<9, "MR">>, <<10, "NULL">>, <<11, "WKS">>, <<12, "PTR">>,
  <<13, "HINFO">>, <<14, "MINFO">>, <<15, "MX">>, <<16, "TXT">>, <<17, "RP">>, <<18, "AFSDB">>,
  <<19, "X25">>, <<20, "ISDN">>, <<21, "RT">>, <<22, "NSAP">>, <<23, "NSAP-PTR">>, <<24, "SIG">>,
  <<25, "KEY">>, <<26, "PX">>, <<27, "GPOS">>, <<28, "AAAA">>, <<29, "LOC">>, <<30, "NXT">>,
  <<31, "EID">>, <<32, "NIMLOC">>, <<33, "SRV">>, <<34, "ATMA">>, <<35, "NAPTR">>, <<36, "KX">>,
  <<37, "CERT">>, <<38, "A6">>, <<39, "DNAME">>, <<40, "SINK">>, <<41, "OPT">>, <<42, "APL">>,
  <<43, "DS">>, <<44, "SSHFP">>, <<45, "IPSECKEY">>, <<46, "RRSIG">>, <<47, "NSEC">>, <<48, "DNSKEY">>,
  <<49, "DHCID">>, <<50, "NSEC3">>, <<51, "NSEC3PARAM">>, <<52, "TLSA">>, <<55, "HIP">>, <<56, "NINFO">>,
  <<57, "RKEY">>, <<58, "TALINK">>, <<59, "CDS">>, <<60, "CDNSKEY">>, <<61, "OPENPGPKEY">>, <<62, "CSYNC">>, <<64, "SVCB">>, <<65, "HTTPS">>,
  <<99, "SPF">>, <<100, "UINFO">>, <<101, "UID">>, <<102, "GID">>, <<103, "UNSPEC">>, <<104, "NID">>,
  <<105, "L32">>, <<106, "L64">>, <<107, "LP">>, <<108, "EUI48">>, <<109, "EUI64">>, <<249, "TKEY">>,
  <<250, "TSIG">>, <<251, "IXFR">>, <<252, "AXFR">>, <<253, "MAILB">>, <<254, "MAILA">>, <<255, "ANY">>,
  <<256, "URI">>, <<257, "CAA">>, <<32768, "TA">>, <<32769, "DLV">>>>

ClassReg == <<
  <<1, "IN">>, <<3, "CH">>, <<4, "HS">>, <<254, "NONE">>, <<255, "ANY">>>>

RcodeReg == <<
  <<0, "NOERROR">>, <<1, "FORMERR">>, <<2, "SERVFAIL">>, <<3, "NXDOMAIN">>, <<4, "NOTIMP">>, <<5, "REFUSED">>,
  <<6, "YXDOMAIN">>, <<7, "YXRRSET">>, <<8, "NXRRSET">>, <<9, "NOTAUTH">>, <<10, "NOTZONE">>, <<16, "BADVERS">>>>

OpcodeReg == <<
  <<0, "QUERY">>, <<1, "IQUERY">>, <<2, "STATUS">>, <<4, "NOTIFY">>, <<5, "UPDATE">>>>

Codes(reg) == {reg[i][1] : i \in 1..Len(reg)}
Table(reg) == [c \in Codes(reg) |-> S(reg[CHOOSE i \in 1..Len(reg) : reg[i][1] = c][2])]
TypeName == TLCEval(Table(TypeReg))
ClassName == TLCEval(Table(ClassReg))
RcodeName == TLCEval(Table(RcodeReg))
OpcodeName == TLCEval(Table(OpcodeReg))

(* the printed form of a type or class, assigned or not *)
TypeText(t) == IF t \in DOMAIN TypeName THEN TypeName[t] ELSE S("TYPE") \o Dec(t)
ClassText(c) == IF c \in DOMAIN ClassName THEN ClassName[c] ELSE S("CLASS") \o Dec(c)

Upper(b) == [i \in 1..Len(b) |-> IF IsLowerC(b[i]) THEN b[i] - 32 ELSE b[i]]

(* text to code: a mnemonic in any case, or the generic spelling; -1 when neither *)
CodeByName(tab) == [m \in {tab[c] : c \in DOMAIN tab} |-> CHOOSE c \in DOMAIN tab : tab[c] = m]
TypeOf == TLCEval(CodeByName(TypeName))
ClassOf == TLCEval(CodeByName(ClassName))
RcodeOf == TLCEval(CodeByName(RcodeName))
AllDigits(ds) == ds # <<>> /\ \A i \in 1..Len(ds) : IsDigit(ds[i])
GenericCode(t, prefix) ==
  LET k == Len(prefix)  ds == SubSeq(t, k + 1, Len(t)) IN
  IF Len(t) > k /\ Upper(SubSeq(t, 1, k)) = prefix /\ AllDigits(ds)
  THEN LET v == DecValue(StripZeros(ds)) IN IF v <= 65535 THEN v ELSE -1
  ELSE -1
StrToType(t) == IF Upper(t) \in DOMAIN TypeOf THEN TypeOf[Upper(t)] ELSE GenericCode(t, S("TYPE"))
StrToClass(t) == IF Upper(t) \in DOMAIN ClassOf THEN ClassOf[Upper(t)] ELSE GenericCode(t, S("CLASS"))
StrToRcode(t) == IF Upper(t) \in DOMAIN RcodeOf THEN RcodeOf[Upper(t)] ELSE -1
=============================================================================
