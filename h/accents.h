// Base letters of precomposed Latin letters: canonical decomposition (UnicodeData) for all but the
// stroked, ligature-like and dotless letters, which clink documents as accents too.
static const struct { unsigned short c; char base; } c_accents[] = {
{0x00C0,'A'},{0x00C1,'A'},{0x00C2,'A'},{0x00C3,'A'},{0x00C4,'A'},{0x00C5,'A'},{0x00C7,'C'},{0x00C8,'E'},{0x00C9,'E'},{0x00CA,'E'},{0x00CB,'E'},{0x00CC,'I'},
{0x00CD,'I'},{0x00CE,'I'},{0x00CF,'I'},{0x00D0,'D'},{0x00D1,'N'},{0x00D2,'O'},{0x00D3,'O'},{0x00D4,'O'},{0x00D5,'O'},{0x00D6,'O'},{0x00D8,'O'},{0x00D9,'U'},
{0x00DA,'U'},{0x00DB,'U'},{0x00DC,'U'},{0x00DD,'Y'},{0x00DF,'s'},{0x00E0,'a'},{0x00E1,'a'},{0x00E2,'a'},{0x00E3,'a'},{0x00E4,'a'},{0x00E5,'a'},{0x00E7,'c'},
{0x00E8,'e'},{0x00E9,'e'},{0x00EA,'e'},{0x00EB,'e'},{0x00EC,'i'},{0x00ED,'i'},{0x00EE,'i'},{0x00EF,'i'},{0x00F0,'d'},{0x00F1,'n'},{0x00F2,'o'},{0x00F3,'o'},
{0x00F4,'o'},{0x00F5,'o'},{0x00F6,'o'},{0x00F8,'o'},{0x00F9,'u'},{0x00FA,'u'},{0x00FB,'u'},{0x00FC,'u'},{0x00FD,'y'},{0x00FF,'y'},{0x0100,'A'},{0x0101,'a'},
{0x0102,'A'},{0x0103,'a'},{0x0104,'A'},{0x0105,'a'},{0x0106,'C'},{0x0107,'c'},{0x0108,'C'},{0x0109,'c'},{0x010A,'C'},{0x010B,'c'},{0x010C,'C'},{0x010D,'c'},
{0x010E,'D'},{0x010F,'d'},{0x0110,'D'},{0x0111,'d'},{0x0112,'E'},{0x0113,'e'},{0x0114,'E'},{0x0115,'e'},{0x0116,'E'},{0x0117,'e'},{0x0118,'E'},{0x0119,'e'},
{0x011A,'E'},{0x011B,'e'},{0x011C,'G'},{0x011D,'g'},{0x011E,'G'},{0x011F,'g'},{0x0120,'G'},{0x0121,'g'},{0x0122,'G'},{0x0123,'g'},{0x0124,'H'},{0x0125,'h'},
{0x0126,'H'},{0x0127,'h'},{0x0128,'I'},{0x0129,'i'},{0x012A,'I'},{0x012B,'i'},{0x012C,'I'},{0x012D,'i'},{0x012E,'I'},{0x012F,'i'},{0x0130,'I'},{0x0131,'i'},
{0x0134,'J'},{0x0135,'j'},{0x0136,'K'},{0x0137,'k'},{0x0138,'k'},{0x0139,'L'},{0x013A,'l'},{0x013B,'L'},{0x013C,'l'},{0x013D,'L'},{0x013E,'l'},{0x013F,'L'},
{0x0140,'l'},{0x0141,'L'},{0x0142,'l'},{0x0143,'N'},{0x0144,'n'},{0x0145,'N'},{0x0146,'n'},{0x0147,'N'},{0x0148,'n'},{0x0149,'n'},{0x014A,'N'},{0x014B,'n'},
{0x014C,'O'},{0x014D,'o'},{0x014E,'O'},{0x014F,'o'},{0x0150,'O'},{0x0151,'o'},{0x0154,'R'},{0x0155,'r'},{0x0156,'R'},{0x0157,'r'},{0x0158,'R'},{0x0159,'r'},
{0x015A,'S'},{0x015B,'s'},{0x015C,'S'},{0x015D,'s'},{0x015E,'S'},{0x015F,'s'},{0x0160,'S'},{0x0161,'s'},{0x0162,'T'},{0x0163,'t'},{0x0164,'T'},{0x0165,'t'},
{0x0166,'T'},{0x0167,'t'},{0x0168,'U'},{0x0169,'u'},{0x016A,'U'},{0x016B,'u'},{0x016C,'U'},{0x016D,'u'},{0x016E,'U'},{0x016F,'u'},{0x0170,'U'},{0x0171,'u'},
{0x0172,'U'},{0x0173,'u'},{0x0174,'W'},{0x0175,'w'},{0x0176,'Y'},{0x0177,'y'},{0x0178,'Y'},{0x0179,'Z'},{0x017A,'z'},{0x017B,'Z'},{0x017C,'z'},{0x017D,'Z'},
{0x017E,'z'},{0x017F,'s'},{0x01A0,'O'},{0x01A1,'o'},{0x01AF,'U'},{0x01B0,'u'},{0x01CD,'A'},{0x01CE,'a'},{0x01CF,'I'},{0x01D0,'i'},{0x01D1,'O'},{0x01D2,'o'},
{0x01D3,'U'},{0x01D4,'u'},{0x01D5,'U'},{0x01D6,'u'},{0x01D7,'U'},{0x01D8,'u'},{0x01D9,'U'},{0x01DA,'u'},{0x01DB,'U'},{0x01DC,'u'},{0x0218,'S'},{0x0219,'s'},
{0x021A,'T'},{0x021B,'t'},{0x0251,'a'},{0x1EA0,'A'},{0x1EA1,'a'},{0x1EA2,'A'},{0x1EA3,'a'},{0x1EA4,'A'},{0x1EA5,'a'},{0x1EA6,'A'},{0x1EA7,'a'},{0x1EA8,'A'},
{0x1EA9,'a'},{0x1EAA,'A'},{0x1EAB,'a'},{0x1EAC,'A'},{0x1EAD,'a'},{0x1EAE,'A'},{0x1EAF,'a'},{0x1EB0,'A'},{0x1EB1,'a'},{0x1EB2,'A'},{0x1EB3,'a'},{0x1EB4,'A'},
{0x1EB5,'a'},{0x1EB6,'A'},{0x1EB7,'a'},{0x1EB8,'E'},{0x1EB9,'e'},{0x1EBA,'E'},{0x1EBB,'e'},{0x1EBC,'E'},{0x1EBD,'e'},{0x1EBE,'E'},{0x1EBF,'e'},{0x1EC0,'E'},
{0x1EC1,'e'},{0x1EC2,'E'},{0x1EC3,'e'},{0x1EC4,'E'},{0x1EC5,'e'},{0x1EC6,'E'},{0x1EC7,'e'},{0x1EC8,'I'},{0x1EC9,'i'},{0x1ECA,'I'},{0x1ECB,'i'},{0x1ECC,'O'},
{0x1ECD,'o'},{0x1ECE,'O'},{0x1ECF,'o'},{0x1ED0,'O'},{0x1ED1,'o'},{0x1ED2,'O'},{0x1ED3,'o'},{0x1ED4,'O'},{0x1ED5,'o'},{0x1ED6,'O'},{0x1ED7,'o'},{0x1ED8,'O'},
{0x1ED9,'o'},{0x1EDA,'O'},{0x1EDB,'o'},{0x1EDC,'O'},{0x1EDD,'o'},{0x1EDE,'O'},{0x1EDF,'o'},{0x1EE0,'O'},{0x1EE1,'o'},{0x1EE2,'O'},{0x1EE3,'o'},{0x1EE4,'U'},
{0x1EE5,'u'},{0x1EE6,'U'},{0x1EE7,'u'},{0x1EE8,'U'},{0x1EE9,'u'},{0x1EEA,'U'},{0x1EEB,'u'},{0x1EEC,'U'},{0x1EED,'u'},{0x1EEE,'U'},{0x1EEF,'u'},{0x1EF0,'U'},
{0x1EF1,'u'},{0x1EF2,'Y'},{0x1EF3,'y'},{0x1EF4,'Y'},{0x1EF5,'y'},{0x1EF6,'Y'},{0x1EF7,'y'},{0x1EF8,'Y'},{0x1EF9,'y'},
};
