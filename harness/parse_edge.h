// generated by tools/genedge.py
enum { FE_FIRST = -151 };
static const struct { unsigned long long d; int e; } FP_EDGE[281] = {
{350324616u,-54},
{700649232u,-54},
{140129846u,-53},
{280259693u,-53},
{560519386u,-53},
{112103877u,-52},
{224207754u,-52},
{448415509u,-52},
{896831017u,-52},
{179366203u,-51},
{358732407u,-51},
{717464814u,-51},
{143492963u,-50},
{286985925u,-50},
{573971851u,-50},
{114794370u,-49},
{229588740u,-49},
{459177481u,-49},
{918354962u,-49},
{183670992u,-48},
{367341985u,-48},
{734683969u,-48},
{146936794u,-47},
{293873588u,-47},
{587747175u,-47},
{117549435u,-46},
{235098870u,-46},
{470197740u,-46},
{940395481u,-46},
{188079096u,-45},
{376158192u,-45},
{752316385u,-45},
{150463277u,-44},
{300926554u,-44},
{601853108u,-44},
{120370622u,-43},
{240741243u,-43},
{481482486u,-43},
{962964972u,-43},
{192592994u,-42},
{385185989u,-42},
{770371978u,-42},
{154074396u,-41},
{308148791u,-41},
{616297582u,-41},
{123259516u,-40},
{246519033u,-40},
{493038066u,-40},
{986076132u,-40},
{197215226u,-39},
{394430453u,-39},
{788860905u,-39},
{157772181u,-38},
{315544362u,-38},
{631088724u,-38},
{126217745u,-37},
{252435490u,-37},
{504870979u,-37},
{100974196u,-36},
{201948392u,-36},
{403896783u,-36},
{807793567u,-36},
{161558713u,-35},
{323117427u,-35},
{646234854u,-35},
{129246971u,-34},
{258493941u,-34},
{516987883u,-34},
{103397577u,-33},
{206795153u,-33},
{413590306u,-33},
{827180613u,-33},
{165436123u,-32},
{330872245u,-32},
{661744490u,-32},
{132348898u,-31},
{264697796u,-31},
{529395592u,-31},
{105879118u,-30},
{211758237u,-30},
{423516474u,-30},
{847032947u,-30},
{169406589u,-29},
{338813179u,-29},
{677626358u,-29},
{135525272u,-28},
{271050543u,-28},
{542101086u,-28},
{108420217u,-27},
{216840434u,-27},
{433680869u,-27},
{867361738u,-27},
{173472348u,-26},
{346944695u,-26},
{693889390u,-26},
{138777878u,-25},
{277555756u,-25},
{555111512u,-25},
{111022302u,-24},
{222044605u,-24},
{444089210u,-24},
{888178420u,-24},
{177635684u,-23},
{355271368u,-23},
{710542736u,-23},
{142108547u,-22},
{284217094u,-22},
{568434189u,-22},
{113686838u,-21},
{227373675u,-21},
{454747351u,-21},
{909494702u,-21},
{181898940u,-20},
{363797881u,-20},
{727595761u,-20},
{145519152u,-19},
{291038305u,-19},
{582076609u,-19},
{116415322u,-18},
{232830644u,-18},
{465661287u,-18},
{931322575u,-18},
{186264515u,-17},
{372529030u,-17},
{745058060u,-17},
{149011612u,-16},
{298023224u,-16},
{596046448u,-16},
{119209290u,-15},
{238418579u,-15},
{476837158u,-15},
{953674316u,-15},
{190734863u,-14},
{381469727u,-14},
{762939453u,-14},
{152587891u,-13},
{305175781u,-13},
{610351562u,-13},
{122070312u,-12},
{244140625u,-12},
{488281250u,-12},
{976562500u,-12},
{195312500u,-11},
{390625000u,-11},
{781250000u,-11},
{156250000u,-10},
{312500000u,-10},
{625000000u,-10},
{125000000u,-9},
{250000000u,-9},
{500000000u,-9},
{100000000u,-8},
{200000000u,-8},
{400000000u,-8},
{800000000u,-8},
{160000000u,-7},
{320000000u,-7},
{640000000u,-7},
{128000000u,-6},
{256000000u,-6},
{512000000u,-6},
{102400000u,-5},
{204800000u,-5},
{409600000u,-5},
{819200000u,-5},
{163840000u,-4},
{327680000u,-4},
{655360000u,-4},
{131072000u,-3},
{262144000u,-3},
{524288000u,-3},
{104857600u,-2},
{209715200u,-2},
{419430400u,-2},
{838860800u,-2},
{167772160u,-1},
{335544320u,-1},
{671088640u,-1},
{134217728u,0},
{268435456u,0},
{536870912u,0},
{107374182u,1},
{214748365u,1},
{429496730u,1},
{858993459u,1},
{171798692u,2},
{343597384u,2},
{687194767u,2},
{137438953u,3},
{274877907u,3},
{549755814u,3},
{109951163u,4},
{219902326u,4},
{439804651u,4},
{879609302u,4},
{175921860u,5},
{351843721u,5},
{703687442u,5},
{140737488u,6},
{281474977u,6},
{562949953u,6},
{112589991u,7},
{225179981u,7},
{450359963u,7},
{900719925u,7},
{180143985u,8},
{360287970u,8},
{720575940u,8},
{144115188u,9},
{288230376u,9},
{576460752u,9},
{115292150u,10},
{230584301u,10},
{461168602u,10},
{922337204u,10},
{184467441u,11},
{368934881u,11},
{737869763u,11},
{147573953u,12},
{295147905u,12},
{590295810u,12},
{118059162u,13},
{236118324u,13},
{472236648u,13},
{944473297u,13},
{188894659u,14},
{377789319u,14},
{755578637u,14},
{151115727u,15},
{302231455u,15},
{604462910u,15},
{120892582u,16},
{241785164u,16},
{483570328u,16},
{967140656u,16},
{193428131u,17},
{386856262u,17},
{773712525u,17},
{154742505u,18},
{309485010u,18},
{618970020u,18},
{123794004u,19},
{247588008u,19},
{495176016u,19},
{990352031u,19},
{198070406u,20},
{396140813u,20},
{792281625u,20},
{158456325u,21},
{316912650u,21},
{633825300u,21},
{126765060u,22},
{253530120u,22},
{507060240u,22},
{101412048u,23},
{202824096u,23},
{405648192u,23},
{811296384u,23},
{162259277u,24},
{324518554u,24},
{649037107u,24},
{129807421u,25},
{259614843u,25},
{519229686u,25},
{103845937u,26},
{207691874u,26},
{415383749u,26},
{830767497u,26},
{166153499u,27},
{332306999u,27},
{664613998u,27},
{132922800u,28},
{265845599u,28},
{531691198u,28},
{106338240u,29},
{212676479u,29},
{425352959u,29},
{850705917u,29},
{170141183u,30},
{340282367u,30},
{680564734u,30}};
enum { DE_FIRST = -1076 };
static const struct { unsigned long long d; int e; } DP_EDGE[2102] = {
{12351641146031164ull,-340},
{24703282292062327ull,-340},
{49406564584124654ull,-340},
{98813129168249309ull,-340},
{19762625833649862ull,-339},
{39525251667299724ull,-339},
{79050503334599447ull,-339},
{15810100666919889ull,-338},
{31620201333839779ull,-338},
{63240402667679558ull,-338},
{12648080533535912ull,-337},
{25296161067071823ull,-337},
{50592322134143646ull,-337},
{10118464426828729ull,-336},
{20236928853657458ull,-336},
{40473857707314917ull,-336},
{80947715414629834ull,-336},
{16189543082925967ull,-335},
{32379086165851934ull,-335},
{64758172331703867ull,-335},
{12951634466340773ull,-334},
{25903268932681547ull,-334},
{51806537865363094ull,-334},
{10361307573072619ull,-333},
{20722615146145237ull,-333},
{41445230292290475ull,-333},
{82890460584580950ull,-333},
{16578092116916190ull,-332},
{33156184233832380ull,-332},
{66312368467664760ull,-332},
{13262473693532952ull,-331},
{26524947387065904ull,-331},
{53049894774131808ull,-331},
{10609978954826362ull,-330},
{21219957909652723ull,-330},
{42439915819305446ull,-330},
{84879831638610893ull,-330},
{16975966327722179ull,-329},
{33951932655444357ull,-329},
{67903865310888714ull,-329},
{13580773062177743ull,-328},
{27161546124355486ull,-328},
{54323092248710971ull,-328},
{10864618449742194ull,-327},
{21729236899484389ull,-327},
{43458473798968777ull,-327},
{86916947597937554ull,-327},
{17383389519587511ull,-326},
{34766779039175022ull,-326},
{69533558078350043ull,-326},
{13906711615670009ull,-325},
{27813423231340017ull,-325},
{55626846462680035ull,-325},
{11125369292536007ull,-324},
{22250738585072014ull,-324},
{44501477170144028ull,-324},
{89002954340288055ull,-324},
{17800590868057611ull,-323},
{35601181736115222ull,-323},
{71202363472230444ull,-323},
{14240472694446089ull,-322},
{28480945388892178ull,-322},
{56961890777784355ull,-322},
{11392378155556871ull,-321},
{22784756311113742ull,-321},
{45569512622227484ull,-321},
{91139025244454969ull,-321},
{18227805048890994ull,-320},
{36455610097781987ull,-320},
{72911220195563975ull,-320},
{14582244039112795ull,-319},
{29164488078225590ull,-319},
{58328976156451180ull,-319},
{11665795231290236ull,-318},
{23331590462580472ull,-318},
{46663180925160944ull,-318},
{93326361850321888ull,-318},
{18665272370064378ull,-317},
{37330544740128755ull,-317},
{74661089480257510ull,-317},
{14932217896051502ull,-316},
{29864435792103004ull,-316},
{59728871584206008ull,-316},
{11945774316841202ull,-315},
{23891548633682403ull,-315},
{47783097267364807ull,-315},
{95566194534729613ull,-315},
{19113238906945923ull,-314},
{38226477813891845ull,-314},
{76452955627783691ull,-314},
{15290591125556738ull,-313},
{30581182251113476ull,-313},
{61162364502226952ull,-313},
{12232472900445390ull,-312},
{24464945800890781ull,-312},
{48929891601781562ull,-312},
{97859783203563124ull,-312},
{19571956640712625ull,-311},
{39143913281425250ull,-311},
{78287826562850499ull,-311},
{15657565312570100ull,-310},
{31315130625140200ull,-310},
{62630261250280399ull,-310},
{12526052250056080ull,-309},
{25052104500112160ull,-309},
{50104209000224319ull,-309},
{10020841800044864ull,-308},
{20041683600089728ull,-308},
{40083367200179456ull,-308},
{80166734400358911ull,-308},
{16033346880071782ull,-307},
{32066693760143564ull,-307},
{64133387520287129ull,-307},
{12826677504057426ull,-306},
{25653355008114852ull,-306},
{51306710016229703ull,-306},
{10261342003245941ull,-305},
{20522684006491881ull,-305},
{41045368012983762ull,-305},
{82090736025967525ull,-305},
{16418147205193505ull,-304},
{32836294410387010ull,-304},
{65672588820774020ull,-304},
{13134517764154804ull,-303},
{26269035528309608ull,-303},
{52538071056619216ull,-303},
{10507614211323843ull,-302},
{21015228422647686ull,-302},
{42030456845295373ull,-302},
{84060913690590746ull,-302},
{16812182738118149ull,-301},
{33624365476236298ull,-301},
{67248730952472596ull,-301},
{13449746190494519ull,-300},
{26899492380989039ull,-300},
{53798984761978077ull,-300},
{10759796952395615ull,-299},
{21519593904791231ull,-299},
{43039187809582462ull,-299},
{86078375619164923ull,-299},
{17215675123832985ull,-298},
{34431350247665969ull,-298},
{68862700495331939ull,-298},
{13772540099066388ull,-297},
{27545080198132776ull,-297},
{55090160396265551ull,-297},
{11018032079253110ull,-296},
{22036064158506220ull,-296},
{44072128317012441ull,-296},
{88144256634024882ull,-296},
{17628851326804976ull,-295},
{35257702653609953ull,-295},
{70515405307219905ull,-295},
{14103081061443981ull,-294},
{28206162122887962ull,-294},
{56412324245775924ull,-294},
{11282464849155185ull,-293},
{22564929698310370ull,-293},
{45129859396620739ull,-293},
{90259718793241479ull,-293},
{18051943758648296ull,-292},
{36103887517296592ull,-292},
{72207775034593183ull,-292},
{14441555006918637ull,-291},
{28883110013837273ull,-291},
{57766220027674546ull,-291},
{11553244005534909ull,-290},
{23106488011069819ull,-290},
{46212976022139637ull,-290},
{92425952044279274ull,-290},
{18485190408855855ull,-289},
{36970380817711710ull,-289},
{73940761635423419ull,-289},
{14788152327084684ull,-288},
{29576304654169368ull,-288},
{59152609308338736ull,-288},
{11830521861667747ull,-287},
{23661043723335494ull,-287},
{47322087446670988ull,-287},
{94644174893341977ull,-287},
{18928834978668395ull,-286},
{37857669957336791ull,-286},
{75715339914673582ull,-286},
{15143067982934716ull,-285},
{30286135965869433ull,-285},
{60572271931738865ull,-285},
{12114454386347773ull,-284},
{24228908772695546ull,-284},
{48457817545391092ull,-284},
{96915635090782184ull,-284},
{19383127018156437ull,-283},
{38766254036312874ull,-283},
{77532508072625747ull,-283},
{15506501614525149ull,-282},
{31013003229050299ull,-282},
{62026006458100598ull,-282},
{12405201291620120ull,-281},
{24810402583240239ull,-281},
{49620805166480478ull,-281},
{99241610332960957ull,-281},
{19848322066592191ull,-280},
{39696644133184383ull,-280},
{79393288266368765ull,-280},
{15878657653273753ull,-279},
{31757315306547506ull,-279},
{63514630613095012ull,-279},
{12702926122619002ull,-278},
{25405852245238005ull,-278},
{50811704490476010ull,-278},
{10162340898095202ull,-277},
{20324681796190404ull,-277},
{40649363592380808ull,-277},
{81298727184761616ull,-277},
{16259745436952323ull,-276},
{32519490873904646ull,-276},
{65038981747809293ull,-276},
{13007796349561859ull,-275},
{26015592699123717ull,-275},
{52031185398247434ull,-275},
{10406237079649487ull,-274},
{20812474159298974ull,-274},
{41624948318597947ull,-274},
{83249896637195895ull,-274},
{16649979327439179ull,-273},
{33299958654878358ull,-273},
{66599917309756716ull,-273},
{13319983461951343ull,-272},
{26639966923902686ull,-272},
{53279933847805373ull,-272},
{10655986769561075ull,-271},
{21311973539122149ull,-271},
{42623947078244298ull,-271},
{85247894156488596ull,-271},
{17049578831297719ull,-270},
{34099157662595438ull,-270},
{68198315325190877ull,-270},
{13639663065038175ull,-269},
{27279326130076351ull,-269},
{54558652260152701ull,-269},
{10911730452030540ull,-268},
{21823460904061081ull,-268},
{43646921808122161ull,-268},
{87293843616244322ull,-268},
{17458768723248864ull,-267},
{34917537446497729ull,-267},
{69835074892995458ull,-267},
{13967014978599092ull,-266},
{27934029957198183ull,-266},
{55868059914396366ull,-266},
{11173611982879273ull,-265},
{22347223965758547ull,-265},
{44694447931517093ull,-265},
{89388895863034186ull,-265},
{17877779172606837ull,-264},
{35755558345213674ull,-264},
{71511116690427349ull,-264},
{14302223338085470ull,-263},
{28604446676170940ull,-263},
{57208893352341879ull,-263},
{11441778670468376ull,-262},
{22883557340936752ull,-262},
{45767114681873503ull,-262},
{91534229363747007ull,-262},
{18306845872749401ull,-261},
{36613691745498803ull,-261},
{73227383490997605ull,-261},
{14645476698199521ull,-260},
{29290953396399042ull,-260},
{58581906792798084ull,-260},
{11716381358559617ull,-259},
{23432762717119234ull,-259},
{46865525434238467ull,-259},
{93731050868476935ull,-259},
{18746210173695387ull,-258},
{37492420347390774ull,-258},
{74984840694781548ull,-258},
{14996968138956310ull,-257},
{29993936277912619ull,-257},
{59987872555825238ull,-257},
{11997574511165048ull,-256},
{23995149022330095ull,-256},
{47990298044660191ull,-256},
{95980596089320381ull,-256},
{19196119217864076ull,-255},
{38392238435728152ull,-255},
{76784476871456305ull,-255},
{15356895374291261ull,-254},
{30713790748582522ull,-254},
{61427581497165044ull,-254},
{12285516299433009ull,-253},
{24571032598866018ull,-253},
{49142065197732035ull,-253},
{98284130395464070ull,-253},
{19656826079092814ull,-252},
{39313652158185628ull,-252},
{78627304316371256ull,-252},
{15725460863274251ull,-251},
{31450921726548502ull,-251},
{62901843453097005ull,-251},
{12580368690619401ull,-250},
{25160737381238802ull,-250},
{50321474762477604ull,-250},
{10064294952495521ull,-249},
{20128589904991042ull,-249},
{40257179809982083ull,-249},
{80514359619964166ull,-249},
{16102871923992833ull,-248},
{32205743847985667ull,-248},
{64411487695971333ull,-248},
{12882297539194267ull,-247},
{25764595078388533ull,-247},
{51529190156777066ull,-247},
{10305838031355413ull,-246},
{20611676062710827ull,-246},
{41223352125421653ull,-246},
{82446704250843306ull,-246},
{16489340850168661ull,-245},
{32978681700337323ull,-245},
{65957363400674645ull,-245},
{13191472680134929ull,-244},
{26382945360269858ull,-244},
{52765890720539716ull,-244},
{10553178144107943ull,-243},
{21106356288215886ull,-243},
{42212712576431773ull,-243},
{84425425152863546ull,-243},
{16885085030572709ull,-242},
{33770170061145418ull,-242},
{67540340122290837ull,-242},
{13508068024458167ull,-241},
{27016136048916335ull,-241},
{54032272097832669ull,-241},
{10806454419566534ull,-240},
{21612908839133068ull,-240},
{43225817678266135ull,-240},
{86451635356532271ull,-240},
{17290327071306454ull,-239},
{34580654142612908ull,-239},
{69161308285225817ull,-239},
{13832261657045163ull,-238},
{27664523314090327ull,-238},
{55329046628180653ull,-238},
{11065809325636131ull,-237},
{22131618651272261ull,-237},
{44263237302544523ull,-237},
{88526474605089045ull,-237},
{17705294921017809ull,-236},
{35410589842035618ull,-236},
{70821179684071236ull,-236},
{14164235936814247ull,-235},
{28328471873628494ull,-235},
{56656943747256989ull,-235},
{11331388749451398ull,-234},
{22662777498902796ull,-234},
{45325554997805591ull,-234},
{90651109995611182ull,-234},
{18130221999122236ull,-233},
{36260443998244473ull,-233},
{72520887996488946ull,-233},
{14504177599297789ull,-232},
{29008355198595578ull,-232},
{58016710397191157ull,-232},
{11603342079438231ull,-231},
{23206684158876463ull,-231},
{46413368317752925ull,-231},
{92826736635505851ull,-231},
{18565347327101170ull,-230},
{37130694654202340ull,-230},
{74261389308404681ull,-230},
{14852277861680936ull,-229},
{29704555723361872ull,-229},
{59409111446723744ull,-229},
{11881822289344749ull,-228},
{23763644578689498ull,-228},
{47527289157378996ull,-228},
{95054578314757991ull,-228},
{19010915662951598ull,-227},
{38021831325903196ull,-227},
{76043662651806393ull,-227},
{15208732530361279ull,-226},
{30417465060722557ull,-226},
{60834930121445114ull,-226},
{12166986024289023ull,-225},
{24333972048578046ull,-225},
{48667944097156091ull,-225},
{97335888194312183ull,-225},
{19467177638862437ull,-224},
{38934355277724873ull,-224},
{77868710555449746ull,-224},
{15573742111089949ull,-223},
{31147484222179899ull,-223},
{62294968444359797ull,-223},
{12458993688871959ull,-222},
{24917987377743919ull,-222},
{49835974755487838ull,-222},
{99671949510975675ull,-222},
{19934389902195135ull,-221},
{39868779804390270ull,-221},
{79737559608780540ull,-221},
{15947511921756108ull,-220},
{31895023843512216ull,-220},
{63790047687024432ull,-220},
{12758009537404886ull,-219},
{25516019074809773ull,-219},
{51032038149619546ull,-219},
{10206407629923909ull,-218},
{20412815259847818ull,-218},
{40825630519695637ull,-218},
{81651261039391273ull,-218},
{16330252207878255ull,-217},
{32660504415756509ull,-217},
{65321008831513019ull,-217},
{13064201766302604ull,-216},
{26128403532605207ull,-216},
{52256807065210415ull,-216},
{10451361413042083ull,-215},
{20902722826084166ull,-215},
{41805445652168332ull,-215},
{83610891304336664ull,-215},
{16722178260867333ull,-214},
{33444356521734666ull,-214},
{66888713043469331ull,-214},
{13377742608693866ull,-213},
{26755485217387732ull,-213},
{53510970434775465ull,-213},
{10702194086955093ull,-212},
{21404388173910186ull,-212},
{42808776347820372ull,-212},
{85617552695640744ull,-212},
{17123510539128149ull,-211},
{34247021078256297ull,-211},
{68494042156512595ull,-211},
{13698808431302519ull,-210},
{27397616862605038ull,-210},
{54795233725210076ull,-210},
{10959046745042015ull,-209},
{21918093490084030ull,-209},
{43836186980168061ull,-209},
{87672373960336122ull,-209},
{17534474792067224ull,-208},
{35068949584134449ull,-208},
{70137899168268897ull,-208},
{14027579833653779ull,-207},
{28055159667307559ull,-207},
{56110319334615118ull,-207},
{11222063866923024ull,-206},
{22444127733846047ull,-206},
{44888255467692094ull,-206},
{89776510935384189ull,-206},
{17955302187076838ull,-205},
{35910604374153675ull,-205},
{71821208748307351ull,-205},
{14364241749661470ull,-204},
{28728483499322940ull,-204},
{57456966998645881ull,-204},
{11491393399729176ull,-203},
{22982786799458352ull,-203},
{45965573598916705ull,-203},
{91931147197833409ull,-203},
{18386229439566682ull,-202},
{36772458879133364ull,-202},
{73544917758266727ull,-202},
{14708983551653345ull,-201},
{29417967103306691ull,-201},
{58835934206613382ull,-201},
{11767186841322676ull,-200},
{23534373682645353ull,-200},
{47068747365290705ull,-200},
{94137494730581411ull,-200},
{18827498946116282ull,-199},
{37654997892232564ull,-199},
{75309995784465129ull,-199},
{15061999156893026ull,-198},
{30123998313786051ull,-198},
{60247996627572103ull,-198},
{12049599325514421ull,-197},
{24099198651028841ull,-197},
{48198397302057682ull,-197},
{96396794604115365ull,-197},
{19279358920823073ull,-196},
{38558717841646146ull,-196},
{77117435683292292ull,-196},
{15423487136658458ull,-195},
{30846974273316917ull,-195},
{61693948546633833ull,-195},
{12338789709326767ull,-194},
{24677579418653533ull,-194},
{49355158837307067ull,-194},
{98710317674614133ull,-194},
{19742063534922827ull,-193},
{39484127069845653ull,-193},
{78968254139691307ull,-193},
{15793650827938261ull,-192},
{31587301655876523ull,-192},
{63174603311753045ull,-192},
{12634920662350609ull,-191},
{25269841324701218ull,-191},
{50539682649402436ull,-191},
{10107936529880487ull,-190},
{20215873059760975ull,-190},
{40431746119521949ull,-190},
{80863492239043898ull,-190},
{16172698447808780ull,-189},
{32345396895617559ull,-189},
{64690793791235119ull,-189},
{12938158758247024ull,-188},
{25876317516494047ull,-188},
{51752635032988095ull,-188},
{10350527006597619ull,-187},
{20701054013195238ull,-187},
{41402108026390476ull,-187},
{82804216052780952ull,-187},
{16560843210556190ull,-186},
{33121686421112381ull,-186},
{66243372842224761ull,-186},
{13248674568444952ull,-185},
{26497349136889905ull,-185},
{52994698273779809ull,-185},
{10598939654755962ull,-184},
{21197879309511924ull,-184},
{42395758619023847ull,-184},
{84791517238047695ull,-184},
{16958303447609539ull,-183},
{33916606895219078ull,-183},
{67833213790438156ull,-183},
{13566642758087631ull,-182},
{27133285516175262ull,-182},
{54266571032350524ull,-182},
{10853314206470105ull,-181},
{21706628412940210ull,-181},
{43413256825880420ull,-181},
{86826513651760839ull,-181},
{17365302730352168ull,-180},
{34730605460704336ull,-180},
{69461210921408671ull,-180},
{13892242184281734ull,-179},
{27784484368563469ull,-179},
{55568968737126937ull,-179},
{11113793747425387ull,-178},
{22227587494850775ull,-178},
{44455174989701550ull,-178},
{88910349979403099ull,-178},
{17782069995880620ull,-177},
{35564139991761240ull,-177},
{71128279983522479ull,-177},
{14225655996704496ull,-176},
{28451311993408992ull,-176},
{56902623986817984ull,-176},
{11380524797363597ull,-175},
{22761049594727193ull,-175},
{45522099189454387ull,-175},
{91044198378908774ull,-175},
{18208839675781755ull,-174},
{36417679351563509ull,-174},
{72835358703127019ull,-174},
{14567071740625404ull,-173},
{29134143481250808ull,-173},
{58268286962501615ull,-173},
{11653657392500323ull,-172},
{23307314785000646ull,-172},
{46614629570001292ull,-172},
{93229259140002584ull,-172},
{18645851828000517ull,-171},
{37291703656001034ull,-171},
{74583407312002067ull,-171},
{14916681462400413ull,-170},
{29833362924800827ull,-170},
{59666725849601654ull,-170},
{11933345169920331ull,-169},
{23866690339840662ull,-169},
{47733380679681323ull,-169},
{95466761359362646ull,-169},
{19093352271872529ull,-168},
{38186704543745059ull,-168},
{76373409087490117ull,-168},
{15274681817498023ull,-167},
{30549363634996047ull,-167},
{61098727269992094ull,-167},
{12219745453998419ull,-166},
{24439490907996837ull,-166},
{48878981815993675ull,-166},
{97757963631987350ull,-166},
{19551592726397470ull,-165},
{39103185452794940ull,-165},
{78206370905589880ull,-165},
{15641274181117976ull,-164},
{31282548362235952ull,-164},
{62565096724471904ull,-164},
{12513019344894381ull,-163},
{25026038689788762ull,-163},
{50052077379577523ull,-163},
{10010415475915505ull,-162},
{20020830951831009ull,-162},
{40041661903662018ull,-162},
{80083323807324037ull,-162},
{16016664761464807ull,-161},
{32033329522929615ull,-161},
{64066659045859230ull,-161},
{12813331809171846ull,-160},
{25626663618343692ull,-160},
{51253327236687384ull,-160},
{10250665447337477ull,-159},
{20501330894674953ull,-159},
{41002661789349907ull,-159},
{82005323578699814ull,-159},
{16401064715739963ull,-158},
{32802129431479926ull,-158},
{65604258862959851ull,-158},
{13120851772591970ull,-157},
{26241703545183940ull,-157},
{52483407090367881ull,-157},
{10496681418073576ull,-156},
{20993362836147152ull,-156},
{41986725672294305ull,-156},
{83973451344588609ull,-156},
{16794690268917722ull,-155},
{33589380537835444ull,-155},
{67178761075670888ull,-155},
{13435752215134178ull,-154},
{26871504430268355ull,-154},
{53743008860536710ull,-154},
{10748601772107342ull,-153},
{21497203544214684ull,-153},
{42994407088429368ull,-153},
{85988814176858736ull,-153},
{17197762835371747ull,-152},
{34395525670743494ull,-152},
{68791051341486989ull,-152},
{13758210268297398ull,-151},
{27516420536594796ull,-151},
{55032841073189591ull,-151},
{11006568214637918ull,-150},
{22013136429275836ull,-150},
{44026272858551673ull,-150},
{88052545717103346ull,-150},
{17610509143420669ull,-149},
{35221018286841338ull,-149},
{70442036573682677ull,-149},
{14088407314736535ull,-148},
{28176814629473071ull,-148},
{56353629258946141ull,-148},
{11270725851789228ull,-147},
{22541451703578456ull,-147},
{45082903407156913ull,-147},
{90165806814313826ull,-147},
{18033161362862765ull,-146},
{36066322725725530ull,-146},
{72132645451451061ull,-146},
{14426529090290212ull,-145},
{28853058180580424ull,-145},
{57706116361160849ull,-145},
{11541223272232170ull,-144},
{23082446544464339ull,-144},
{46164893088928679ull,-144},
{92329786177857358ull,-144},
{18465957235571472ull,-143},
{36931914471142943ull,-143},
{73863828942285886ull,-143},
{14772765788457177ull,-142},
{29545531576914354ull,-142},
{59091063153828709ull,-142},
{11818212630765742ull,-141},
{23636425261531484ull,-141},
{47272850523062967ull,-141},
{94545701046125934ull,-141},
{18909140209225187ull,-140},
{37818280418450374ull,-140},
{75636560836900748ull,-140},
{15127312167380150ull,-139},
{30254624334760299ull,-139},
{60509248669520598ull,-139},
{12101849733904120ull,-138},
{24203699467808239ull,-138},
{48407398935616478ull,-138},
{96814797871232957ull,-138},
{19362959574246591ull,-137},
{38725919148493183ull,-137},
{77451838296986365ull,-137},
{15490367659397273ull,-136},
{30980735318794546ull,-136},
{61961470637589092ull,-136},
{12392294127517818ull,-135},
{24784588255035637ull,-135},
{49569176510071274ull,-135},
{99138353020142548ull,-135},
{19827670604028510ull,-134},
{39655341208057019ull,-134},
{79310682416114038ull,-134},
{15862136483222808ull,-133},
{31724272966445615ull,-133},
{63448545932891231ull,-133},
{12689709186578246ull,-132},
{25379418373156492ull,-132},
{50758836746312984ull,-132},
{10151767349262597ull,-131},
{20303534698525194ull,-131},
{40607069397050388ull,-131},
{81214138794100775ull,-131},
{16242827758820155ull,-130},
{32485655517640310ull,-130},
{64971311035280620ull,-130},
{12994262207056124ull,-129},
{25988524414112248ull,-129},
{51977048828224496ull,-129},
{10395409765644899ull,-128},
{20790819531289798ull,-128},
{41581639062579597ull,-128},
{83163278125159194ull,-128},
{16632655625031839ull,-127},
{33265311250063677ull,-127},
{66530622500127355ull,-127},
{13306124500025471ull,-126},
{26612249000050942ull,-126},
{53224498000101884ull,-126},
{10644899600020377ull,-125},
{21289799200040754ull,-125},
{42579598400081507ull,-125},
{85159196800163014ull,-125},
{17031839360032603ull,-124},
{34063678720065206ull,-124},
{68127357440130412ull,-124},
{13625471488026082ull,-123},
{27250942976052165ull,-123},
{54501885952104329ull,-123},
{10900377190420866ull,-122},
{21800754380841732ull,-122},
{43601508761683463ull,-122},
{87203017523366927ull,-122},
{17440603504673385ull,-121},
{34881207009346771ull,-121},
{69762414018693541ull,-121},
{13952482803738708ull,-120},
{27904965607477417ull,-120},
{55809931214954833ull,-120},
{11161986242990967ull,-119},
{22323972485981933ull,-119},
{44647944971963866ull,-119},
{89295889943927733ull,-119},
{17859177988785547ull,-118},
{35718355977571093ull,-118},
{71436711955142186ull,-118},
{14287342391028437ull,-117},
{28574684782056875ull,-117},
{57149369564113749ull,-117},
{11429873912822750ull,-116},
{22859747825645500ull,-116},
{45719495651290999ull,-116},
{91438991302581999ull,-116},
{18287798260516400ull,-115},
{36575596521032799ull,-115},
{73151193042065599ull,-115},
{14630238608413120ull,-114},
{29260477216826240ull,-114},
{58520954433652479ull,-114},
{11704190886730496ull,-113},
{23408381773460992ull,-113},
{46816763546921983ull,-113},
{93633527093843967ull,-113},
{18726705418768793ull,-112},
{37453410837537587ull,-112},
{74906821675075173ull,-112},
{14981364335015035ull,-111},
{29962728670030069ull,-111},
{59925457340060139ull,-111},
{11985091468012028ull,-110},
{23970182936024055ull,-110},
{47940365872048111ull,-110},
{95880731744096222ull,-110},
{19176146348819244ull,-109},
{38352292697638489ull,-109},
{76704585395276977ull,-109},
{15340917079055395ull,-108},
{30681834158110791ull,-108},
{61363668316221582ull,-108},
{12272733663244316ull,-107},
{24545467326488633ull,-107},
{49090934652977266ull,-107},
{98181869305954531ull,-107},
{19636373861190906ull,-106},
{39272747722381812ull,-106},
{78545495444763625ull,-106},
{15709099088952725ull,-105},
{31418198177905450ull,-105},
{62836396355810900ull,-105},
{12567279271162180ull,-104},
{25134558542324360ull,-104},
{50269117084648720ull,-104},
{10053823416929744ull,-103},
{20107646833859488ull,-103},
{40215293667718976ull,-103},
{80430587335437952ull,-103},
{16086117467087590ull,-102},
{32172234934175181ull,-102},
{64344469868350361ull,-102},
{12868893973670072ull,-101},
{25737787947340145ull,-101},
{51475575894680289ull,-101},
{10295115178936058ull,-100},
{20590230357872116ull,-100},
{41180460715744231ull,-100},
{82360921431488463ull,-100},
{16472184286297693ull,-99},
{32944368572595385ull,-99},
{65888737145190770ull,-99},
{13177747429038154ull,-98},
{26355494858076308ull,-98},
{52710989716152616ull,-98},
{10542197943230523ull,-97},
{21084395886461046ull,-97},
{42168791772922093ull,-97},
{84337583545844186ull,-97},
{16867516709168837ull,-96},
{33735033418337674ull,-96},
{67470066836675349ull,-96},
{13494013367335070ull,-95},
{26988026734670139ull,-95},
{53976053469340279ull,-95},
{10795210693868056ull,-94},
{21590421387736112ull,-94},
{43180842775472223ull,-94},
{86361685550944446ull,-94},
{17272337110188889ull,-93},
{34544674220377779ull,-93},
{69089348440755557ull,-93},
{13817869688151111ull,-92},
{27635739376302223ull,-92},
{55271478752604446ull,-92},
{11054295750520889ull,-91},
{22108591501041778ull,-91},
{44217183002083556ull,-91},
{88434366004167113ull,-91},
{17686873200833423ull,-90},
{35373746401666845ull,-90},
{70747492803333690ull,-90},
{14149498560666738ull,-89},
{28298997121333476ull,-89},
{56597994242666952ull,-89},
{11319598848533390ull,-88},
{22639197697066781ull,-88},
{45278395394133562ull,-88},
{90556790788267124ull,-88},
{18111358157653425ull,-87},
{36222716315306849ull,-87},
{72445432630613699ull,-87},
{14489086526122740ull,-86},
{28978173052245480ull,-86},
{57956346104490959ull,-86},
{11591269220898192ull,-85},
{23182538441796384ull,-85},
{46365076883592767ull,-85},
{92730153767185535ull,-85},
{18546030753437107ull,-84},
{37092061506874214ull,-84},
{74184123013748428ull,-84},
{14836824602749686ull,-83},
{29673649205499371ull,-83},
{59347298410998742ull,-83},
{11869459682199748ull,-82},
{23738919364399497ull,-82},
{47477838728798994ull,-82},
{94955677457597987ull,-82},
{18991135491519597ull,-81},
{37982270983039195ull,-81},
{75964541966078390ull,-81},
{15192908393215678ull,-80},
{30385816786431356ull,-80},
{60771633572862712ull,-80},
{12154326714572542ull,-79},
{24308653429145085ull,-79},
{48617306858290170ull,-79},
{97234613716580339ull,-79},
{19446922743316068ull,-78},
{38893845486632136ull,-78},
{77787690973264271ull,-78},
{15557538194652854ull,-77},
{31115076389305709ull,-77},
{62230152778611417ull,-77},
{12446030555722283ull,-76},
{24892061111444567ull,-76},
{49784122222889134ull,-76},
{99568244445778267ull,-76},
{19913648889155653ull,-75},
{39827297778311307ull,-75},
{79654595556622614ull,-75},
{15930919111324523ull,-74},
{31861838222649046ull,-74},
{63723676445298091ull,-74},
{12744735289059618ull,-73},
{25489470578119236ull,-73},
{50978941156238473ull,-73},
{10195788231247695ull,-72},
{20391576462495389ull,-72},
{40783152924990778ull,-72},
{81566305849981557ull,-72},
{16313261169996311ull,-71},
{32626522339992623ull,-71},
{65253044679985245ull,-71},
{13050608935997049ull,-70},
{26101217871994098ull,-70},
{52202435743988196ull,-70},
{10440487148797639ull,-69},
{20880974297595278ull,-69},
{41761948595190557ull,-69},
{83523897190381114ull,-69},
{16704779438076223ull,-68},
{33409558876152446ull,-68},
{66819117752304891ull,-68},
{13363823550460978ull,-67},
{26727647100921956ull,-67},
{53455294201843913ull,-67},
{10691058840368783ull,-66},
{21382117680737565ull,-66},
{42764235361475130ull,-66},
{85528470722950261ull,-66},
{17105694144590052ull,-65},
{34211388289180104ull,-65},
{68422776578360209ull,-65},
{13684555315672042ull,-64},
{27369110631344083ull,-64},
{54738221262688167ull,-64},
{10947644252537633ull,-63},
{21895288505075267ull,-63},
{43790577010150533ull,-63},
{87581154020301067ull,-63},
{17516230804060213ull,-62},
{35032461608120427ull,-62},
{70064923216240854ull,-62},
{14012984643248171ull,-61},
{28025969286496341ull,-61},
{56051938572992683ull,-61},
{11210387714598537ull,-60},
{22420775429197073ull,-60},
{44841550858394146ull,-60},
{89683101716788293ull,-60},
{17936620343357659ull,-59},
{35873240686715317ull,-59},
{71746481373430634ull,-59},
{14349296274686127ull,-58},
{28698592549372254ull,-58},
{57397185098744507ull,-58},
{11479437019748901ull,-57},
{22958874039497803ull,-57},
{45917748078995606ull,-57},
{91835496157991212ull,-57},
{18367099231598242ull,-56},
{36734198463196485ull,-56},
{73468396926392969ull,-56},
{14693679385278594ull,-55},
{29387358770557188ull,-55},
{58774717541114375ull,-55},
{11754943508222875ull,-54},
{23509887016445750ull,-54},
{47019774032891500ull,-54},
{94039548065783001ull,-54},
{18807909613156600ull,-53},
{37615819226313200ull,-53},
{75231638452626401ull,-53},
{15046327690525280ull,-52},
{30092655381050560ull,-52},
{60185310762101120ull,-52},
{12037062152420224ull,-51},
{24074124304840448ull,-51},
{48148248609680896ull,-51},
{96296497219361793ull,-51},
{19259299443872359ull,-50},
{38518598887744717ull,-50},
{77037197775489434ull,-50},
{15407439555097887ull,-49},
{30814879110195774ull,-49},
{61629758220391547ull,-49},
{12325951644078309ull,-48},
{24651903288156619ull,-48},
{49303806576313238ull,-48},
{98607613152626476ull,-48},
{19721522630525295ull,-47},
{39443045261050590ull,-47},
{78886090522101181ull,-47},
{15777218104420236ull,-46},
{31554436208840472ull,-46},
{63108872417680944ull,-46},
{12621774483536189ull,-45},
{25243548967072378ull,-45},
{50487097934144756ull,-45},
{10097419586828951ull,-44},
{20194839173657902ull,-44},
{40389678347315804ull,-44},
{80779356694631609ull,-44},
{16155871338926322ull,-43},
{32311742677852644ull,-43},
{64623485355705287ull,-43},
{12924697071141057ull,-42},
{25849394142282115ull,-42},
{51698788284564230ull,-42},
{10339757656912846ull,-41},
{20679515313825692ull,-41},
{41359030627651384ull,-41},
{82718061255302767ull,-41},
{16543612251060553ull,-40},
{33087224502121107ull,-40},
{66174449004242214ull,-40},
{13234889800848443ull,-39},
{26469779601696886ull,-39},
{52939559203393771ull,-39},
{10587911840678754ull,-38},
{21175823681357508ull,-38},
{42351647362715017ull,-38},
{84703294725430034ull,-38},
{16940658945086007ull,-37},
{33881317890172014ull,-37},
{67762635780344027ull,-37},
{13552527156068805ull,-36},
{27105054312137611ull,-36},
{54210108624275222ull,-36},
{10842021724855044ull,-35},
{21684043449710089ull,-35},
{43368086899420177ull,-35},
{86736173798840355ull,-35},
{17347234759768071ull,-34},
{34694469519536142ull,-34},
{69388939039072284ull,-34},
{13877787807814457ull,-33},
{27755575615628914ull,-33},
{55511151231257827ull,-33},
{11102230246251565ull,-32},
{22204460492503131ull,-32},
{44408920985006262ull,-32},
{88817841970012523ull,-32},
{17763568394002505ull,-31},
{35527136788005009ull,-31},
{71054273576010019ull,-31},
{14210854715202004ull,-30},
{28421709430404007ull,-30},
{56843418860808015ull,-30},
{11368683772161603ull,-29},
{22737367544323206ull,-29},
{45474735088646412ull,-29},
{90949470177292824ull,-29},
{18189894035458565ull,-28},
{36379788070917130ull,-28},
{72759576141834259ull,-28},
{14551915228366852ull,-27},
{29103830456733704ull,-27},
{58207660913467407ull,-27},
{11641532182693481ull,-26},
{23283064365386963ull,-26},
{46566128730773926ull,-26},
{93132257461547852ull,-26},
{18626451492309570ull,-25},
{37252902984619141ull,-25},
{74505805969238281ull,-25},
{14901161193847656ull,-24},
{29802322387695312ull,-24},
{59604644775390625ull,-24},
{11920928955078125ull,-23},
{23841857910156250ull,-23},
{47683715820312500ull,-23},
{95367431640625000ull,-23},
{19073486328125000ull,-22},
{38146972656250000ull,-22},
{76293945312500000ull,-22},
{15258789062500000ull,-21},
{30517578125000000ull,-21},
{61035156250000000ull,-21},
{12207031250000000ull,-20},
{24414062500000000ull,-20},
{48828125000000000ull,-20},
{97656250000000000ull,-20},
{19531250000000000ull,-19},
{39062500000000000ull,-19},
{78125000000000000ull,-19},
{15625000000000000ull,-18},
{31250000000000000ull,-18},
{62500000000000000ull,-18},
{12500000000000000ull,-17},
{25000000000000000ull,-17},
{50000000000000000ull,-17},
{10000000000000000ull,-16},
{20000000000000000ull,-16},
{40000000000000000ull,-16},
{80000000000000000ull,-16},
{16000000000000000ull,-15},
{32000000000000000ull,-15},
{64000000000000000ull,-15},
{12800000000000000ull,-14},
{25600000000000000ull,-14},
{51200000000000000ull,-14},
{10240000000000000ull,-13},
{20480000000000000ull,-13},
{40960000000000000ull,-13},
{81920000000000000ull,-13},
{16384000000000000ull,-12},
{32768000000000000ull,-12},
{65536000000000000ull,-12},
{13107200000000000ull,-11},
{26214400000000000ull,-11},
{52428800000000000ull,-11},
{10485760000000000ull,-10},
{20971520000000000ull,-10},
{41943040000000000ull,-10},
{83886080000000000ull,-10},
{16777216000000000ull,-9},
{33554432000000000ull,-9},
{67108864000000000ull,-9},
{13421772800000000ull,-8},
{26843545600000000ull,-8},
{53687091200000000ull,-8},
{10737418240000000ull,-7},
{21474836480000000ull,-7},
{42949672960000000ull,-7},
{85899345920000000ull,-7},
{17179869184000000ull,-6},
{34359738368000000ull,-6},
{68719476736000000ull,-6},
{13743895347200000ull,-5},
{27487790694400000ull,-5},
{54975581388800000ull,-5},
{10995116277760000ull,-4},
{21990232555520000ull,-4},
{43980465111040000ull,-4},
{87960930222080000ull,-4},
{17592186044416000ull,-3},
{35184372088832000ull,-3},
{70368744177664000ull,-3},
{14073748835532800ull,-2},
{28147497671065600ull,-2},
{56294995342131200ull,-2},
{11258999068426240ull,-1},
{22517998136852480ull,-1},
{45035996273704960ull,-1},
{90071992547409920ull,-1},
{18014398509481984ull,0},
{36028797018963968ull,0},
{72057594037927936ull,0},
{14411518807585587ull,1},
{28823037615171174ull,1},
{57646075230342349ull,1},
{11529215046068470ull,2},
{23058430092136940ull,2},
{46116860184273879ull,2},
{92233720368547758ull,2},
{18446744073709552ull,3},
{36893488147419103ull,3},
{73786976294838206ull,3},
{14757395258967641ull,4},
{29514790517935283ull,4},
{59029581035870565ull,4},
{11805916207174113ull,5},
{23611832414348226ull,5},
{47223664828696452ull,5},
{94447329657392904ull,5},
{18889465931478581ull,6},
{37778931862957162ull,6},
{75557863725914323ull,6},
{15111572745182865ull,7},
{30223145490365729ull,7},
{60446290980731459ull,7},
{12089258196146292ull,8},
{24178516392292583ull,8},
{48357032784585167ull,8},
{96714065569170334ull,8},
{19342813113834067ull,9},
{38685626227668134ull,9},
{77371252455336267ull,9},
{15474250491067253ull,10},
{30948500982134507ull,10},
{61897001964269014ull,10},
{12379400392853803ull,11},
{24758800785707605ull,11},
{49517601571415211ull,11},
{99035203142830422ull,11},
{19807040628566084ull,12},
{39614081257132169ull,12},
{79228162514264338ull,12},
{15845632502852868ull,13},
{31691265005705735ull,13},
{63382530011411470ull,13},
{12676506002282294ull,14},
{25353012004564588ull,14},
{50706024009129176ull,14},
{10141204801825835ull,15},
{20282409603651670ull,15},
{40564819207303341ull,15},
{81129638414606682ull,15},
{16225927682921336ull,16},
{32451855365842673ull,16},
{64903710731685345ull,16},
{12980742146337069ull,17},
{25961484292674138ull,17},
{51922968585348276ull,17},
{10384593717069655ull,18},
{20769187434139311ull,18},
{41538374868278621ull,18},
{83076749736557242ull,18},
{16615349947311448ull,19},
{33230699894622897ull,19},
{66461399789245794ull,19},
{13292279957849159ull,20},
{26584559915698317ull,20},
{53169119831396635ull,20},
{10633823966279327ull,21},
{21267647932558654ull,21},
{42535295865117308ull,21},
{85070591730234616ull,21},
{17014118346046923ull,22},
{34028236692093846ull,22},
{68056473384187693ull,22},
{13611294676837539ull,23},
{27222589353675077ull,23},
{54445178707350154ull,23},
{10889035741470031ull,24},
{21778071482940062ull,24},
{43556142965880123ull,24},
{87112285931760247ull,24},
{17422457186352049ull,25},
{34844914372704099ull,25},
{69689828745408197ull,25},
{13937965749081639ull,26},
{27875931498163279ull,26},
{55751862996326558ull,26},
{11150372599265312ull,27},
{22300745198530623ull,27},
{44601490397061246ull,27},
{89202980794122493ull,27},
{17840596158824499ull,28},
{35681192317648997ull,28},
{71362384635297994ull,28},
{14272476927059599ull,29},
{28544953854119198ull,29},
{57089907708238395ull,29},
{11417981541647679ull,30},
{22835963083295358ull,30},
{45671926166590716ull,30},
{91343852333181432ull,30},
{18268770466636286ull,31},
{36537540933272573ull,31},
{73075081866545146ull,31},
{14615016373309029ull,32},
{29230032746618058ull,32},
{58460065493236117ull,32},
{11692013098647223ull,33},
{23384026197294447ull,33},
{46768052394588893ull,33},
{93536104789177787ull,33},
{18707220957835557ull,34},
{37414441915671115ull,34},
{74828883831342229ull,34},
{14965776766268446ull,35},
{29931553532536892ull,35},
{59863107065073784ull,35},
{11972621413014757ull,36},
{23945242826029513ull,36},
{47890485652059027ull,36},
{95780971304118054ull,36},
{19156194260823611ull,37},
{38312388521647221ull,37},
{76624777043294443ull,37},
{15324955408658889ull,38},
{30649910817317777ull,38},
{61299821634635554ull,38},
{12259964326927111ull,39},
{24519928653854222ull,39},
{49039857307708443ull,39},
{98079714615416887ull,39},
{19615942923083377ull,40},
{39231885846166755ull,40},
{78463771692333510ull,40},
{15692754338466702ull,41},
{31385508676933404ull,41},
{62771017353866808ull,41},
{12554203470773362ull,42},
{25108406941546723ull,42},
{50216813883093446ull,42},
{10043362776618689ull,43},
{20086725553237378ull,43},
{40173451106474757ull,43},
{80346902212949514ull,43},
{16069380442589903ull,44},
{32138760885179806ull,44},
{64277521770359611ull,44},
{12855504354071922ull,45},
{25711008708143844ull,45},
{51422017416287689ull,45},
{10284403483257538ull,46},
{20568806966515076ull,46},
{41137613933030151ull,46},
{82275227866060302ull,46},
{16455045573212060ull,47},
{32910091146424121ull,47},
{65820182292848242ull,47},
{13164036458569648ull,48},
{26328072917139297ull,48},
{52656145834278593ull,48},
{10531229166855719ull,49},
{21062458333711437ull,49},
{42124916667422875ull,49},
{84249833334845749ull,49},
{16849966666969150ull,50},
{33699933333938300ull,50},
{67399866667876599ull,50},
{13479973333575320ull,51},
{26959946667150640ull,51},
{53919893334301280ull,51},
{10783978666860256ull,52},
{21567957333720512ull,52},
{43135914667441024ull,52},
{86271829334882047ull,52},
{17254365866976409ull,53},
{34508731733952819ull,53},
{69017463467905638ull,53},
{13803492693581128ull,54},
{27606985387162255ull,54},
{55213970774324510ull,54},
{11042794154864902ull,55},
{22085588309729804ull,55},
{44171176619459608ull,55},
{88342353238919216ull,55},
{17668470647783843ull,56},
{35336941295567687ull,56},
{70673882591135373ull,56},
{14134776518227075ull,57},
{28269553036454149ull,57},
{56539106072908299ull,57},
{11307821214581660ull,58},
{22615642429163319ull,58},
{45231284858326639ull,58},
{90462569716653278ull,58},
{18092513943330656ull,59},
{36185027886661311ull,59},
{72370055773322622ull,59},
{14474011154664524ull,60},
{28948022309329049ull,60},
{57896044618658098ull,60},
{11579208923731620ull,61},
{23158417847463239ull,61},
{46316835694926478ull,61},
{92633671389852956ull,61},
{18526734277970591ull,62},
{37053468555941183ull,62},
{74106937111882365ull,62},
{14821387422376473ull,63},
{29642774844752946ull,63},
{59285549689505892ull,63},
{11857109937901178ull,64},
{23714219875802357ull,64},
{47428439751604714ull,64},
{94856879503209427ull,64},
{18971375900641885ull,65},
{37942751801283771ull,65},
{75885503602567542ull,65},
{15177100720513508ull,66},
{30354201441027017ull,66},
{60708402882054033ull,66},
{12141680576410807ull,67},
{24283361152821613ull,67},
{48566722305643227ull,67},
{97133444611286454ull,67},
{19426688922257291ull,68},
{38853377844514581ull,68},
{77706755689029163ull,68},
{15541351137805833ull,69},
{31082702275611665ull,69},
{62165404551223330ull,69},
{12433080910244666ull,70},
{24866161820489332ull,70},
{49732323640978664ull,70},
{99464647281957328ull,70},
{19892929456391466ull,71},
{39785858912782931ull,71},
{79571717825565863ull,71},
{15914343565113173ull,72},
{31828687130226345ull,72},
{63657374260452690ull,72},
{12731474852090538ull,73},
{25462949704181076ull,73},
{50925899408362152ull,73},
{10185179881672430ull,74},
{20370359763344861ull,74},
{40740719526689722ull,74},
{81481439053379443ull,74},
{16296287810675889ull,75},
{32592575621351777ull,75},
{65185151242703555ull,75},
{13037030248540711ull,76},
{26074060497081422ull,76},
{52148120994162844ull,76},
{10429624198832569ull,77},
{20859248397665138ull,77},
{41718496795330275ull,77},
{83436993590660550ull,77},
{16687398718132110ull,78},
{33374797436264220ull,78},
{66749594872528440ull,78},
{13349918974505688ull,79},
{26699837949011376ull,79},
{53399675898022752ull,79},
{10679935179604550ull,80},
{21359870359209101ull,80},
{42719740718418202ull,80},
{85439481436836403ull,80},
{17087896287367281ull,81},
{34175792574734561ull,81},
{68351585149469123ull,81},
{13670317029893825ull,82},
{27340634059787649ull,82},
{54681268119575298ull,82},
{10936253623915060ull,83},
{21872507247830119ull,83},
{43745014495660238ull,83},
{87490028991320477ull,83},
{17498005798264095ull,84},
{34996011596528191ull,84},
{69992023193056382ull,84},
{13998404638611276ull,85},
{27996809277222553ull,85},
{55993618554445105ull,85},
{11198723710889021ull,86},
{22397447421778042ull,86},
{44794894843556084ull,86},
{89589789687112168ull,86},
{17917957937422434ull,87},
{35835915874844867ull,87},
{71671831749689735ull,87},
{14334366349937947ull,88},
{28668732699875894ull,88},
{57337465399751788ull,88},
{11467493079950358ull,89},
{22934986159900715ull,89},
{45869972319801430ull,89},
{91739944639602860ull,89},
{18347988927920572ull,90},
{36695977855841144ull,90},
{73391955711682288ull,90},
{14678391142336458ull,91},
{29356782284672915ull,91},
{58713564569345831ull,91},
{11742712913869166ull,92},
{23485425827738332ull,92},
{46970851655476665ull,92},
{93941703310953329ull,92},
{18788340662190666ull,93},
{37576681324381332ull,93},
{75153362648762663ull,93},
{15030672529752533ull,94},
{30061345059505065ull,94},
{60122690119010131ull,94},
{12024538023802026ull,95},
{24049076047604052ull,95},
{48098152095208105ull,95},
{96196304190416209ull,95},
{19239260838083242ull,96},
{38478521676166484ull,96},
{76957043352332967ull,96},
{15391408670466593ull,97},
{30782817340933187ull,97},
{61565634681866374ull,97},
{12313126936373275ull,98},
{24626253872746550ull,98},
{49252507745493099ull,98},
{98505015490986198ull,98},
{19701003098197240ull,99},
{39402006196394479ull,99},
{78804012392788958ull,99},
{15760802478557792ull,100},
{31521604957115583ull,100},
{63043209914231167ull,100},
{12608641982846233ull,101},
{25217283965692467ull,101},
{50434567931384933ull,101},
{10086913586276987ull,102},
{20173827172553973ull,102},
{40347654345107947ull,102},
{80695308690215893ull,102},
{16139061738043179ull,103},
{32278123476086357ull,103},
{64556246952172715ull,103},
{12911249390434543ull,104},
{25822498780869086ull,104},
{51644997561738172ull,104},
{10328999512347634ull,105},
{20657999024695269ull,105},
{41315998049390537ull,105},
{82631996098781075ull,105},
{16526399219756215ull,106},
{33052798439512430ull,106},
{66105596879024860ull,106},
{13221119375804972ull,107},
{26442238751609944ull,107},
{52884477503219888ull,107},
{10576895500643978ull,108},
{21153791001287955ull,108},
{42307582002575910ull,108},
{84615164005151821ull,108},
{16923032801030364ull,109},
{33846065602060728ull,109},
{67692131204121457ull,109},
{13538426240824291ull,110},
{27076852481648583ull,110},
{54153704963297165ull,110},
{10830740992659433ull,111},
{21661481985318866ull,111},
{43322963970637732ull,111},
{86645927941275464ull,111},
{17329185588255093ull,112},
{34658371176510186ull,112},
{69316742353020371ull,112},
{13863348470604074ull,113},
{27726696941208149ull,113},
{55453393882416297ull,113},
{11090678776483259ull,114},
{22181357552966519ull,114},
{44362715105933038ull,114},
{88725430211866076ull,114},
{17745086042373215ull,115},
{35490172084746430ull,115},
{70980344169492860ull,115},
{14196068833898572ull,116},
{28392137667797144ull,116},
{56784275335594288ull,116},
{11356855067118858ull,117},
{22713710134237715ull,117},
{45427420268475431ull,117},
{90854840536950861ull,117},
{18170968107390172ull,118},
{36341936214780345ull,118},
{72683872429560689ull,118},
{14536774485912138ull,119},
{29073548971824276ull,119},
{58147097943648551ull,119},
{11629419588729710ull,120},
{23258839177459420ull,120},
{46517678354918841ull,120},
{93035356709837682ull,120},
{18607071341967536ull,121},
{37214142683935073ull,121},
{74428285367870146ull,121},
{14885657073574029ull,122},
{29771314147148058ull,122},
{59542628294296116ull,122},
{11908525658859223ull,123},
{23817051317718447ull,123},
{47634102635436893ull,123},
{95268205270873786ull,123},
{19053641054174757ull,124},
{38107282108349515ull,124},
{76214564216699029ull,124},
{15242912843339806ull,125},
{30485825686679612ull,125},
{60971651373359223ull,125},
{12194330274671845ull,126},
{24388660549343689ull,126},
{48777321098687379ull,126},
{97554642197374757ull,126},
{19510928439474951ull,127},
{39021856878949903ull,127},
{78043713757899806ull,127},
{15608742751579961ull,128},
{31217485503159922ull,128},
{62434971006319845ull,128},
{12486994201263969ull,129},
{24973988402527938ull,129},
{49947976805055876ull,129},
{99895953610111751ull,129},
{19979190722022350ull,130},
{39958381444044701ull,130},
{79916762888089401ull,130},
{15983352577617880ull,131},
{31966705155235760ull,131},
{63933410310471521ull,131},
{12786682062094304ull,132},
{25573364124188608ull,132},
{51146728248377217ull,132},
{10229345649675443ull,133},
{20458691299350887ull,133},
{40917382598701773ull,133},
{81834765197403547ull,133},
{16366953039480709ull,134},
{32733906078961419ull,134},
{65467812157922837ull,134},
{13093562431584567ull,135},
{26187124863169135ull,135},
{52374249726338270ull,135},
{10474849945267654ull,136},
{20949699890535308ull,136},
{41899399781070616ull,136},
{83798799562141232ull,136},
{16759759912428246ull,137},
{33519519824856493ull,137},
{67039039649712985ull,137},
{13407807929942597ull,138},
{26815615859885194ull,138},
{53631231719770388ull,138},
{10726246343954078ull,139},
{21452492687908155ull,139},
{42904985375816311ull,139},
{85809970751632621ull,139},
{17161994150326524ull,140},
{34323988300653049ull,140},
{68647976601306097ull,140},
{13729595320261219ull,141},
{27459190640522439ull,141},
{54918381281044878ull,141},
{10983676256208976ull,142},
{21967352512417951ull,142},
{43934705024835902ull,142},
{87869410049671804ull,142},
{17573882009934361ull,143},
{35147764019868722ull,143},
{70295528039737443ull,143},
{14059105607947489ull,144},
{28118211215894977ull,144},
{56236422431789955ull,144},
{11247284486357991ull,145},
{22494568972715982ull,145},
{44989137945431964ull,145},
{89978275890863928ull,145},
{17995655178172786ull,146},
{35991310356345571ull,146},
{71982620712691142ull,146},
{14396524142538228ull,147},
{28793048285076457ull,147},
{57586096570152914ull,147},
{11517219314030583ull,148},
{23034438628061165ull,148},
{46068877256122331ull,148},
{92137754512244662ull,148},
{18427550902448932ull,149},
{36855101804897865ull,149},
{73710203609795730ull,149},
{14742040721959146ull,150},
{29484081443918292ull,150},
{58968162887836584ull,150},
{11793632577567317ull,151},
{23587265155134633ull,151},
{47174530310269267ull,151},
{94349060620538534ull,151},
{18869812124107707ull,152},
{37739624248215414ull,152},
{75479248496430827ull,152},
{15095849699286165ull,153},
{30191699398572331ull,153},
{60383398797144662ull,153},
{12076679759428932ull,154},
{24153359518857865ull,154},
{48306719037715729ull,154},
{96613438075431459ull,154},
{19322687615086292ull,155},
{38645375230172583ull,155},
{77290750460345167ull,155},
{15458150092069033ull,156},
{30916300184138067ull,156},
{61832600368276134ull,156},
{12366520073655227ull,157},
{24733040147310453ull,157},
{49466080294620907ull,157},
{98932160589241814ull,157},
{19786432117848363ull,158},
{39572864235696725ull,158},
{79145728471393451ull,158},
{15829145694278690ull,159},
{31658291388557380ull,159},
{63316582777114761ull,159},
{12663316555422952ull,160},
{25326633110845904ull,160},
{50653266221691809ull,160},
{10130653244338362ull,161},
{20261306488676723ull,161},
{40522612977353447ull,161},
{81045225954706894ull,161},
{16209045190941379ull,162},
{32418090381882757ull,162},
{64836180763765515ull,162},
{12967236152753103ull,163},
{25934472305506206ull,163},
{51868944611012412ull,163},
{10373788922202482ull,164},
{20747577844404965ull,164},
{41495155688809930ull,164},
{82990311377619859ull,164},
{16598062275523972ull,165},
{33196124551047944ull,165},
{66392249102095887ull,165},
{13278449820419177ull,166},
{26556899640838355ull,166},
{53113799281676710ull,166},
{10622759856335342ull,167},
{21245519712670684ull,167},
{42491039425341368ull,167},
{84982078850682736ull,167},
{16996415770136547ull,168},
{33992831540273094ull,168},
{67985663080546189ull,168},
{13597132616109238ull,169},
{27194265232218475ull,169},
{54388530464436951ull,169},
{10877706092887390ull,170},
{21755412185774780ull,170},
{43510824371549561ull,170},
{87021648743099121ull,170},
{17404329748619824ull,171},
{34808659497239649ull,171},
{69617318994479297ull,171},
{13923463798895859ull,172},
{27846927597791719ull,172},
{55693855195583438ull,172},
{11138771039116688ull,173},
{22277542078233375ull,173},
{44555084156466750ull,173},
{89110168312933500ull,173},
{17822033662586700ull,174},
{35644067325173400ull,174},
{71288134650346800ull,174},
{14257626930069360ull,175},
{28515253860138720ull,175},
{57030507720277440ull,175},
{11406101544055488ull,176},
{22812203088110976ull,176},
{45624406176221952ull,176},
{91248812352443904ull,176},
{18249762470488781ull,177},
{36499524940977562ull,177},
{72999049881955123ull,177},
{14599809976391025ull,178},
{29199619952782049ull,178},
{58399239905564099ull,178},
{11679847981112820ull,179},
{23359695962225640ull,179},
{46719391924451279ull,179},
{93438783848902558ull,179},
{18687756769780512ull,180},
{37375513539561023ull,180},
{74751027079122046ull,180},
{14950205415824409ull,181},
{29900410831648819ull,181},
{59800821663297637ull,181},
{11960164332659527ull,182},
{23920328665319055ull,182},
{47840657330638110ull,182},
{95681314661276219ull,182},
{19136262932255244ull,183},
{38272525864510488ull,183},
{76545051729020976ull,183},
{15309010345804195ull,184},
{30618020691608390ull,184},
{61236041383216780ull,184},
{12247208276643356ull,185},
{24494416553286712ull,185},
{48988833106573424ull,185},
{97977666213146849ull,185},
{19595533242629370ull,186},
{39191066485258739ull,186},
{78382132970517479ull,186},
{15676426594103496ull,187},
{31352853188206992ull,187},
{62705706376413983ull,187},
{12541141275282797ull,188},
{25082282550565593ull,188},
{50164565101131187ull,188},
{10032913020226237ull,189},
{20065826040452475ull,189},
{40131652080904949ull,189},
{80263304161809898ull,189},
{16052660832361980ull,190},
{32105321664723959ull,190},
{64210643329447919ull,190},
{12842128665889584ull,191},
{25684257331779168ull,191},
{51368514663558335ull,191},
{10273702932711667ull,192},
{20547405865423334ull,192},
{41094811730846668ull,192},
{82189623461693336ull,192},
{16437924692338667ull,193},
{32875849384677334ull,193},
{65751698769354669ull,193},
{13150339753870934ull,194},
{26300679507741868ull,194},
{52601359015483735ull,194},
{10520271803096747ull,195},
{21040543606193494ull,195},
{42081087212386988ull,195},
{84162174424773976ull,195},
{16832434884954795ull,196},
{33664869769909590ull,196},
{67329739539819181ull,196},
{13465947907963836ull,197},
{26931895815927672ull,197},
{53863791631855345ull,197},
{10772758326371069ull,198},
{21545516652742138ull,198},
{43091033305484276ull,198},
{86182066610968552ull,198},
{17236413322193710ull,199},
{34472826644387421ull,199},
{68945653288774841ull,199},
{13789130657754968ull,200},
{27578261315509936ull,200},
{55156522631019873ull,200},
{11031304526203975ull,201},
{22062609052407949ull,201},
{44125218104815898ull,201},
{88250436209631797ull,201},
{17650087241926359ull,202},
{35300174483852719ull,202},
{70600348967705437ull,202},
{14120069793541087ull,203},
{28240139587082175ull,203},
{56480279174164350ull,203},
{11296055834832870ull,204},
{22592111669665740ull,204},
{45184223339331480ull,204},
{90368446678662960ull,204},
{18073689335732592ull,205},
{36147378671465184ull,205},
{72294757342930368ull,205},
{14458951468586074ull,206},
{28917902937172147ull,206},
{57835805874344294ull,206},
{11567161174868859ull,207},
{23134322349737718ull,207},
{46268644699475435ull,207},
{92537289398950871ull,207},
{18507457879790174ull,208},
{37014915759580348ull,208},
{74029831519160697ull,208},
{14805966303832139ull,209},
{29611932607664279ull,209},
{59223865215328557ull,209},
{11844773043065711ull,210},
{23689546086131423ull,210},
{47379092172262846ull,210},
{94758184344525692ull,210},
{18951636868905138ull,211},
{37903273737810277ull,211},
{75806547475620553ull,211},
{15161309495124111ull,212},
{30322618990248221ull,212},
{60645237980496443ull,212},
{12129047596099289ull,213},
{24258095192198577ull,213},
{48516190384397154ull,213},
{97032380768794308ull,213},
{19406476153758862ull,214},
{38812952307517723ull,214},
{77625904615035447ull,214},
{15525180923007089ull,215},
{31050361846014179ull,215},
{62100723692028357ull,215},
{12420144738405671ull,216},
{24840289476811343ull,216},
{49680578953622686ull,216},
{99361157907245372ull,216},
{19872231581449074ull,217},
{39744463162898149ull,217},
{79488926325796297ull,217},
{15897785265159259ull,218},
{31795570530318519ull,218},
{63591141060637038ull,218},
{12718228212127408ull,219},
{25436456424254815ull,219},
{50872912848509630ull,219},
{10174582569701926ull,220},
{20349165139403852ull,220},
{40698330278807704ull,220},
{81396660557615409ull,220},
{16279332111523082ull,221},
{32558664223046163ull,221},
{65117328446092327ull,221},
{13023465689218465ull,222},
{26046931378436931ull,222},
{52093862756873862ull,222},
{10418772551374772ull,223},
{20837545102749545ull,223},
{41675090205499089ull,223},
{83350180410998178ull,223},
{16670036082199636ull,224},
{33340072164399271ull,224},
{66680144328798543ull,224},
{13336028865759709ull,225},
{26672057731519417ull,225},
{53344115463038834ull,225},
{10668823092607767ull,226},
{21337646185215534ull,226},
{42675292370431067ull,226},
{85350584740862135ull,226},
{17070116948172427ull,227},
{34140233896344854ull,227},
{68280467792689708ull,227},
{13656093558537942ull,228},
{27312187117075883ull,228},
{54624374234151766ull,228},
{10924874846830353ull,229},
{21849749693660706ull,229},
{43699499387321413ull,229},
{87398998774642826ull,229},
{17479799754928565ull,230},
{34959599509857130ull,230},
{69919199019714261ull,230},
{13983839803942852ull,231},
{27967679607885704ull,231},
{55935359215771409ull,231},
{11187071843154282ull,232},
{22374143686308563ull,232},
{44748287372617127ull,232},
{89496574745234254ull,232},
{17899314949046851ull,233},
{35798629898093702ull,233},
{71597259796187403ull,233},
{14319451959237481ull,234},
{28638903918474961ull,234},
{57277807836949922ull,234},
{11455561567389984ull,235},
{22911123134779969ull,235},
{45822246269559938ull,235},
{91644492539119876ull,235},
{18328898507823975ull,236},
{36657797015647950ull,236},
{73315594031295901ull,236},
{14663118806259180ull,237},
{29326237612518360ull,237},
{58652475225036721ull,237},
{11730495045007344ull,238},
{23460990090014688ull,238},
{46921980180029376ull,238},
{93843960360058753ull,238},
{18768792072011751ull,239},
{37537584144023501ull,239},
{75075168288047002ull,239},
{15015033657609400ull,240},
{30030067315218801ull,240},
{60060134630437602ull,240},
{12012026926087520ull,241},
{24024053852175041ull,241},
{48048107704350081ull,241},
{96096215408700163ull,241},
{19219243081740033ull,242},
{38438486163480065ull,242},
{76876972326960130ull,242},
{15375394465392026ull,243},
{30750788930784052ull,243},
{61501577861568104ull,243},
{12300315572313621ull,244},
{24600631144627242ull,244},
{49201262289254483ull,244},
{98402524578508967ull,244},
{19680504915701793ull,245},
{39361009831403587ull,245},
{78722019662807173ull,245},
{15744403932561435ull,246},
{31488807865122869ull,246},
{62977615730245739ull,246},
{12595523146049148ull,247},
{25191046292098296ull,247},
{50382092584196591ull,247},
{10076418516839318ull,248},
{20152837033678636ull,248},
{40305674067357273ull,248},
{80611348134714546ull,248},
{16122269626942909ull,249},
{32244539253885818ull,249},
{64489078507771637ull,249},
{12897815701554327ull,250},
{25795631403108655ull,250},
{51591262806217309ull,250},
{10318252561243462ull,251},
{20636505122486924ull,251},
{41273010244973847ull,251},
{82546020489947695ull,251},
{16509204097989539ull,252},
{33018408195979078ull,252},
{66036816391958156ull,252},
{13207363278391631ull,253},
{26414726556783262ull,253},
{52829453113566525ull,253},
{10565890622713305ull,254},
{21131781245426610ull,254},
{42263562490853220ull,254},
{84527124981706439ull,254},
{16905424996341288ull,255},
{33810849992682576ull,255},
{67621699985365152ull,255},
{13524339997073030ull,256},
{27048679994146061ull,256},
{54097359988292121ull,256},
{10819471997658424ull,257},
{21638943995316848ull,257},
{43277887990633697ull,257},
{86555775981267394ull,257},
{17311155196253479ull,258},
{34622310392506958ull,258},
{69244620785013915ull,258},
{13848924157002783ull,259},
{27697848314005566ull,259},
{55395696628011132ull,259},
{11079139325602226ull,260},
{22158278651204453ull,260},
{44316557302408906ull,260},
{88633114604817811ull,260},
{17726622920963562ull,261},
{35453245841927125ull,261},
{70906491683854249ull,261},
{14181298336770850ull,262},
{28362596673541700ull,262},
{56725193347083399ull,262},
{11345038669416680ull,263},
{22690077338833360ull,263},
{45380154677666719ull,263},
{90760309355333439ull,263},
{18152061871066688ull,264},
{36304123742133376ull,264},
{72608247484266751ull,264},
{14521649496853350ull,265},
{29043298993706700ull,265},
{58086597987413401ull,265},
{11617319597482680ull,266},
{23234639194965360ull,266},
{46469278389930721ull,266},
{92938556779861441ull,266},
{18587711355972288ull,267},
{37175422711944577ull,267},
{74350845423889153ull,267},
{14870169084777831ull,268},
{29740338169555661ull,268},
{59480676339111323ull,268},
{11896135267822265ull,269},
{23792270535644529ull,269},
{47584541071289058ull,269},
{95169082142578116ull,269},
{19033816428515623ull,270},
{38067632857031246ull,270},
{76135265714062493ull,270},
{15227053142812499ull,271},
{30454106285624997ull,271},
{60908212571249994ull,271},
{12181642514249999ull,272},
{24363285028499998ull,272},
{48726570056999995ull,272},
{97453140113999991ull,272},
{19490628022799998ull,273},
{38981256045599996ull,273},
{77962512091199993ull,273},
{15592502418239999ull,274},
{31185004836479997ull,274},
{62370009672959994ull,274},
{12474001934591999ull,275},
{24948003869183998ull,275},
{49896007738367995ull,275},
{99792015476735991ull,275},
{19958403095347198ull,276},
{39916806190694396ull,276},
{79833612381388792ull,276},
{15966722476277758ull,277},
{31933444952555517ull,277},
{63866889905111034ull,277},
{12773377981022207ull,278},
{25546755962044414ull,278},
{51093511924088827ull,278},
{10218702384817765ull,279},
{20437404769635531ull,279},
{40874809539271062ull,279},
{81749619078542123ull,279},
{16349923815708425ull,280},
{32699847631416849ull,280},
{65399695262833699ull,280},
{13079939052566740ull,281},
{26159878105133480ull,281},
{52319756210266959ull,281},
{10463951242053392ull,282},
{20927902484106784ull,282},
{41855804968213567ull,282},
{83711609936427134ull,282},
{16742321987285427ull,283},
{33484643974570854ull,283},
{66969287949141708ull,283},
{13393857589828342ull,284},
{26787715179656683ull,284},
{53575430359313366ull,284},
{10715086071862673ull,285},
{21430172143725346ull,285},
{42860344287450693ull,285},
{85720688574901386ull,285},
{17144137714980277ull,286},
{34288275429960554ull,286},
{68576550859921109ull,286},
{13715310171984222ull,287},
{27430620343968443ull,287},
{54861240687936887ull,287},
{10972248137587377ull,288},
{21944496275174755ull,288},
{43888992550349509ull,288},
{87777985100699019ull,288},
{17555597020139804ull,289},
{35111194040279608ull,289},
{70222388080559215ull,289},
{14044477616111843ull,290},
{28088955232223686ull,290},
{56177910464447372ull,290},
{11235582092889474ull,291},
{22471164185778949ull,291},
{44942328371557898ull,291},
{89884656743115795ull,291},
{17976931348623159ull,292},
{35953862697246318ull,292}};
