// generated by tools/genhard.py
static const unsigned F_HARD[255][4] = {{0},{5688783,1119262,234732,3404022},
{4104138,1119262,234732,1819377},
{934848,7457842,234732,8157957},
{934848,4196345,234732,8157957},
{934848,6527209,234732,5827093},
{3265712,4196345,7696922,695767},
{3265712,4196345,3731028,4661661},
{7109925,4196345,817448,4661661},
{7109925,5653135,817448,4661661},
{878289,4196345,5187818,3204871},
{7838320,4196345,1545843,3204871},
{7838320,4196345,1545843,6017332},
{7838320,5855373,716329,6846846},
{3781588,1798641,716329,2790114},
{1753222,1798641,716329,761748},
{1753222,1980317,625491,852586},
{739039,966134,625491,852586},
{739039,345495,231947,852586},
{739039,1556450,231947,1049358},
{1753222,3584816,4288679,1049358},
{1753222,2669019,4288679,133561},
{1753222,4746578,4288679,2211120},
{3830781,4746578,4288679,5204476},
{3830781,4746578,4288679,5204476},
{1004883,7572476,4288679,1462781},
{6656679,7572476,7114577,8030374},
{6656679,7572476,7114577,49832},
{2666408,3582205,3124306,49832},
{1129171,3582205,3124306,1587069},
{6656679,1423528,1914152,1587069},
{6656679,197011,360552,1587069},
{973811,2200328,360552,1587069},
{973811,7106396,7269937,4040103},
{973811,7106396,5655020,4040103},
{973811,4847562,5655020,166352},
{6462479,646728,8240937,166352},
{7591896,646728,7111520,166352},
{7591896,731061,7027187,166352},
{3596770,4726187,3032061,166352},
{208519,5855604,3032061,166352},
{1599207,5855604,3032061,166352},
{1599207,5160260,6593114,166352},
{903863,5160260,3032061,7288458},
{7678297,5160260,3032061,514024},
{4291080,1773043,3032061,514024},
{3421900,2642223,3032061,8157638},
{469273,5594850,3032061,79434},
{1555748,5594850,3032061,79434},
{1555748,3575299,3032061,5051612},
{6374527,1709147,3032061,5051612},
{4041837,6061388,3032061,5051612},
{4041837,6061388,3032061,5051612},
{3188631,6061388,1012510,3885267},
{6801130,2448889,1012510,272768},
{2818760,2448889,1012510,642639},
{6801130,2079018,8237508,642639},
{4440074,2079018,8237508,642639},
{4440074,3259546,1823167,7056980},
{6801130,898490,3003695,4695924},
{2157581,3849810,7647244,52375},
{5325470,3849810,1528035,52375},
{4587640,3849810,1528035,790205},
{6063300,2374150,1528035,6909414},
{4218725,2374150,1528035,6909414},
{4218725,605748,1528035,6909414},
{2450323,453402,3448783,1451862},
{2450323,3258351,643834,1451862},
{6467314,2854337,8273802,4660825},
{6467314,3258351,643834,2663904},
{6467314,3258351,643834,4862832},
{6467314,1148852,2753333,4862832},
{6467314,3808083,2753333,94102},
{7017046,49388,8071795,1104137},
{7017046,1423718,368968,2478467},
{4220382,1423718,5275131,2478467},
{7017046,736553,3165632,4587966},
{7728213,25386,3165632,3876799},
{7728213,25386,3165632,3876799},
{8379375,145396,5179123,500979},
{1062134,1773301,1417717,2128884},
{6498672,1773301,1417717,6854255},
{6498672,1773301,4135986,6854255},
{1062134,5202737,3424819,7565422},
{1062134,5495121,7857806,3132435},
{915942,5495121,7857806,3132435},
{1500710,769750,8003998,2693859},
{1135230,769750,8003998,3059339},
{5531669,769750,7821258,3059339},
{1135230,221530,7821258,3059339},
{1135230,5440299,7821258,3059339},
{906805,5440299,7821258,3059339},
{906805,3173552,7821258,792592},
{906805,2945127,5554511,7592833},
{906805,1925966,5554511,6573672},
{906805,6064092,5554511,1416385},
{5044931,3964288,2497028,1416385},
{8133155,876064,5585252,1416385},
{8133155,876064,5585252,1416385},
{5044931,7052512,4041140,6048721},
{1184651,3192232,4041140,2188441},
{6975071,1262092,258301,2188441},
{7940141,297022,258301,1223371},
{6010001,1262092,1145930,1223371},
{6010001,1262092,8383955,1223371},
{17034,2429709,7216338,1223371},
{17034,3674767,2390988,6048721},
{17034,3674767,2390988,1845900},
{17034,3947311,2118444,1845900},
{4492399,7877588,2118444,755724},
{4492399,3811039,2118444,6184993},
{85170,4151719,2118444,6184993},
{85170,4151719,2118444,1948104},
{425850,3981379,2629464,6184993},
{4407229,3981379,2203614,6184993},
{212925,3981379,2203614,1990689},
{1064625,3129679,2629464,1564839},
{1064625,1032527,532312,1564839},
{16049,1032527,532312,516263},
{80245,968331,564410,484165},
{80245,444043,40122,484165},
{80245,181899,40122,222021},
{80245,50827,40122,90949},
{8009,123063,69540,61531},
{8009,57527,4004,61531},
{8009,24759,4004,28763},
{7277,25491,20022,12745},
{7277,9107,3638,12745},
{7277,915,3638,4553},
{3617,4575,1808,6383},
{3617,479,1808,2287},
{1569,479,1808,239},
{545,479,784,239},
{677,347,850,173},
{165,347,338,173},
{165,91,82,173},
{57,199,156,99},
{57,71,28,99},
{57,7,28,35},
{29,35,14,49},
{29,3,14,17},
{13,3,14,1},
{0,0,6,1},
{0,0,0,7},
{0,0,0,0},
{0,0,0,0},
{0,0,0,0},
{0,0,0,0},
{0,0,0,0},
{0,0,0,0},
{0,0,0,0},
{0,0,0,0},
{0,0,0,0},
{0,0,0,0},
{0,0,0,0},
{0,0,0,0},
{0,0,0,0},
{0,0,0,0},
{0,0,0,0},
{0,0,0,0},
{0,0,0,0},
{0,0,0,0},
{16,18,3,5},
{4,5,16,17},
{23,11,10,23},
{20,14,7,1},
{45,114,107,51},
{31,3,93,65},
{24,10,86,72},
{149,135,461,447},
{458,451,145,138},
{300,609,612,296},
{2175,1859,612,296},
{2096,1938,533,375},
{494,415,2056,1977},
{2818,1216,1255,2778},
{15318,4341,7505,12153},
{855,3179,8667,10991},
{1436,2598,9248,10410},
{32686,65098,71748,26035},
{40789,56995,1726,17932},
{5778,13881,44840,52943},
{240153,170131,44840,365443},
{27335,382949,222647,187636},
{311551,98733,116238,294045},
{63034,347250,258346,151937},
{844284,1909750,1820846,933187},
{134088,666821,1110650,1643383},
{1732115,1021919,755552,45356},
{1732115,1021919,6614927,5904731},
{1554566,1199468,6437378,6082280},
{6348604,6171055,1465791,1288242},
{2087213,1199468,6437378,755595},
{2087213,1199468,4040359,755595},
{2841850,1199468,4040359,958},
{2020659,4417678,3219168,5616187},
{2841850,3596487,3219168,3973805},
{6026783,411554,3219168,6404101},
{6026783,411554,3219168,7619249},
{117428,1460317,3219168,2004020},
{117428,8143631,3219168,2611594},
{117428,8143631,3219168,2915381},
{725002,6624696,4434316,2915381},
{3674849,2155914,4434316,2915381},
{3674849,2155914,4434316,2915381},
{279251,5551512,6310979,2915381},
{279251,636979,4434316,4792044},
{279251,458115,4613180,4792044},
{279251,368683,4613180,4702612},
{279251,726411,4613180,5060340},
{279251,502831,4613180,4836760},
{279251,391041,4613180,4724970},
{55671,614621,4277810,4836760},
{55671,335146,4557285,4836760},
{55671,335146,4557285,474883},
{6738224,335146,4557285,2516084},
{6458749,894096,195408,2516084},
{6458749,894096,1355746,2516084},
{6458749,313927,1355746,1935915},
{289080,313927,301503,326350},
{11419,313927,301503,23842},
{3063518,313927,2773433,23842},
{1903180,313927,452757,1764349},
{2558976,5459821,4009398,6910243},
{2558976,5459821,4009398,1436451},
{2558976,2722925,4009398,1272502},
{2558976,641825,780655,1600400},
{1190528,641825,780655,231952},
{506304,641825,96431,231952},
{506304,499685,509613,502994},
{164192,157573,167501,160882},
{164192,157573,167501,160882},
{164192,499685,851725,331938},
{164192,72045,424085,331938},
{164192,72045,210265,118118},
{57282,72045,103355,11208},
{164192,392775,317175,11208},
{164192,125500,49900,11208},
{164192,144846,30554,11208},
{966017,144846,297829,813033},
{966017,1223619,297829,555431},
{966017,1094818,297829,426630},
{4975142,2431193,1634204,5772130},
{4975142,362230,1634204,3703167},
{4975142,2668686,1634204,6009623},
{3821914,2668686,7162851,480976},
{2906179,2668686,8316079,2549939},
{5551756,2668686,8316079,5433009},
{4110221,2668686,6874544,5433009},
{6993291,3872728,1345897,5433009},
{4949735,1829172,1345897,3389453},
{3927957,807394,2367675,3389453},
{1884401,1829172,4466460,4411231},
{1884401,1829172,1856786,4411231},
{579564,3134009,1856786,4411231}};
static const unsigned long long D_HARD[2047][4] = {{0},{1589428196470004u,828791382282622u,256330444056724u,2161889134695901u},
{1209109789376313u,828791382282622u,2542207541789592u,2161889134695901u},
{1209109789376313u,2352048338242747u,1018950585829467u,3685146090656026u},
{4446774568636089u,2352048338242747u,1018950585829467u,3685146090656026u},
{4255623701296563u,68154568095240u,1018950585829467u,1590419860262684u},
{733215948612859u,1304685223046076u,1018950585829467u,1590419860262684u},
{3637358373821145u,1304685223046076u,3923093011037753u,1590419860262684u},
{3637358373821145u,1876154497479293u,447481311396250u,1543623807220483u},
{3637358373821145u,2756756435650219u,447481311396250u,4185429621733261u},
{3197057404735682u,2756756435650219u,7180342310787u,4185429621733261u},
{339711032569597u,4059219635348910u,241160607521792u,438261457617401u},
{339711032569597u,218110973074670u,119560548026865u,438261457617401u},
{339711032569597u,4461770209134032u,119560548026865u,4241619724591300u},
{2100914908911449u,4461770209134032u,1000162486197791u,3361017786420374u},
{2180590136309083u,4461770209134032u,1079837713595425u,3361017786420374u},
{2180590136309083u,2220427750007900u,1079837713595425u,1119675327294242u},
{1059918906746017u,1099756520444834u,1079837713595425u,1119675327294242u},
{1059918906746017u,1099756520444834u,1079837713595425u,1119675327294242u},
{1059918906746017u,1099756520444834u,3881515787503090u,1119675327294242u},
{2480676750549258u,1099756520444834u,3881515787503090u,2500595557398666u},
{3861596980653682u,1139594134143651u,1040000099896608u,2500595557398666u},
{3861596980653682u,409296405392622u,1770297828647637u,2500595557398666u},
{2135446693023152u,409296405392622u,44147541017107u,2500595557398666u},
{3861596980653682u,3596042150525210u,1770297828647637u,1504742998519165u},
{3861596980653682u,3728819565589446u,1770297828647637u,1637520413583401u},
{3795208273121564u,3728819565589446u,1703909121115519u,1637520413583401u},
{3762013919355505u,3728819565589446u,1703909121115519u,1670714767349460u},
{3894791334419741u,3728819565589446u,1836686536179755u,1670714767349460u},
{1753700651764608u,3728819565589446u,3811805450004593u,1670714767349460u},
{2741260108677027u,3728819565589446u,683155310437041u,1670714767349460u},
{276497044430655u,434197657191599u,3811805450004593u,19268235115861u},
{4305585178460803u,434197657191599u,3811805450004593u,927977385647808u},
{4305585178460803u,394772504001363u,3811805450004593u,888552232457572u},
{2330466264635965u,1382331960913782u,809701926077100u,3851230603194829u},
{2330466264635965u,1382331960913782u,1856399112774873u,908264809052690u},
{3327882009845943u,1382331960913782u,1856399112774873u,2853814857984851u},
{3327882009845943u,883624088308793u,1856399112774873u,2355106985379862u},
{2330466264635965u,883624088308793u,4300657034312023u,2853814857984851u},
{1607045176472379u,883624088308793u,4300657034312023u,3577235946148437u},
{1245334632390586u,883624088308793u,3938946490230230u,3577235946148437u},
{1245334632390586u,3377163451333738u,1083696583123492u,3215525402066644u},
{1245334632390586u,2311249041862162u,2149610992595068u,3215525402066644u},
{1245334632390586u,1778291837126374u,2682568197330856u,3215525402066644u},
{3473249565202753u,293015215251596u,2682568197330856u,3215525402066644u},
{3473249565202753u,26536612883702u,2682568197330856u,2949046799698750u},
{3340010264018806u,26536612883702u,2815807498514803u,2949046799698750u},
{2882427149106777u,3015666450290724u,2815807498514803u,2949046799698750u},
{2882427149106777u,3548623655026512u,2549328896146909u,3215525402066644u},
{2882427149106777u,188708519747743u,2549328896146909u,3215525402066644u},
{2882427149106777u,1535567834427260u,536273075547657u,1202469581467392u},
{2882427149106777u,854905025667478u,3896188210826426u,1868666087387127u},
{2882427149106777u,529039924127634u,1542800985847283u,4222053312366270u},
{2882427149106777u,529039924127634u,4059120761596348u,1705733536617205u},
{2719494598336855u,854905025667478u,4059120761596348u,2194531188926971u},
{2719494598336855u,447573648742673u,4059120761596348u,1787199812002166u},
{1583534123539764u,447573648742673u,4059120761596348u,2923160286799257u},
{3491140524197803u,447573648742673u,1015553886141218u,2923160286799257u},
{811888197678816u,447573648742673u,3287474835735400u,2923160286799257u},
{3105317561267329u,447573648742673u,629730923210744u,2923160286799257u},
{1776445605005001u,447573648742673u,4252032243061585u,2923160286799257u},
{4434189517529657u,83259099806530u,3287474835735400u,1229973781600786u},
{1112009626873837u,3405438990462350u,3287474835735400u,2258724308668093u},
{1112009626873837u,3405438990462350u,3919814253996003u,2258724308668093u},
{4434189517529657u,555115718714328u,4476708162155512u,597634363340183u},
{4434189517529657u,281464654209882u,4118019808399355u,597634363340183u},
{2041657376739468u,281464654209882u,2357827085869769u,597634363340183u},
{1161561015474675u,281464654209882u,2357827085869769u,1477730724604976u},
{2041657376739468u,913804072470485u,2605584028873959u,1477730724604976u},
{405343125711977u,913804072470485u,3114044975632467u,1477730724604976u},
{3932202101146213u,2295887850118722u,3114044975632467u,1477730724604976u},
{3932202101146213u,4186432574525467u,4463761101405384u,95646946956739u},
{3932202101146213u,4059317337835840u,4463761101405384u,95646946956739u},
{3932202101146213u,4059317337835840u,3868644482801399u,3995759719491026u},
{3805086864456586u,286319801991180u,3487298772732518u,4122874956180653u},
{3805086864456586u,2045703333223883u,1727915241499815u,4122874956180653u},
{3805086864456586u,848223475883464u,1727915241499815u,2925395098840234u},
{2326655170170025u,848223475883464u,249483547213254u,2925395098840234u},
{1410127149775748u,1483799659331599u,4403826793126795u,2925395098840234u},
{3664610945983515u,2186179251696954u,4403826793126795u,2925395098840234u},
{319721506449790u,2186179251696954u,1058937353593070u,2925395098840234u},
{3664610945983515u,4052636996944118u,2316351519212078u,356557761227715u},
{3664610945983515u,4052636996944118u,3470597920503213u,3858623971463816u},
{3664610945983515u,1719564815385163u,1525551789904861u,3858623971463816u},
{2500532793101706u,1719564815385163u,3470597920503213u,2689629942786670u},
{359015699125384u,1719564815385163u,3470597920503213u,1329080826526891u},
{4150872478633103u,1719564815385163u,1039290257255273u,2399839373515052u},
{2935218647009133u,1719564815385163u,1039290257255273u,2399839373515052u},
{1574669530749354u,3080113931644942u,3470597920503213u,1184185541891082u},
{1574669530749354u,2327391731197148u,431463341443288u,4223320120951007u},
{1951030630973251u,2327391731197148u,431463341443288u,807824441667185u},
{1951030630973251u,1546423753480605u,3094236820279316u,807824441667185u},
{1951030630973251u,4035139570839059u,1010127880413508u,807824441667185u},
{2993085100906155u,4035139570839059u,1010127880413508u,807824441667185u},
{1951030630973251u,706672722294024u,1212431319159831u,3933987851465897u},
{1951030630973251u,706672722294024u,2573209585312864u,1328851676633637u},
{3253598718389381u,706672722294024u,3875777672728994u,26283589217507u},
{3904882762097446u,55388678585959u,3875777672728994u,26283589217507u},
{1951030630973251u,2009240809710154u,1921925541604799u,1980135720341702u},
{1951030630973251u,351925611071540u,3579240740243413u,1980135720341702u},
{1951030630973251u,351925611071540u,3579240740243413u,1980135720341702u},
{3550135650874962u,3608345829611865u,3579240740243413u,3637450918980316u},
{3550135650874962u,1565806920682049u,3579240740243413u,1594912010050500u},
{544537466217141u,1565806920682049u,3579240740243413u,573642555585592u},
{1507596741945146u,3608345829611865u,2557971285778505u,1653122188787403u},
{4060770378107416u,1055172193449595u,2557971285778505u,2105546737282954u},
{4060770378107416u,1055172193449595u,2557971285778505u,3834558103859640u},
{4060770378107416u,1879334463035179u,3010395834274056u,828959919201819u},
{1919677876737938u,1879334463035179u,869303332904578u,2970052420571297u},
{849131626053199u,808788212350440u,869303332904578u,2970052420571297u},
{849131626053199u,3505325545913667u,313858500710829u,2970052420571297u},
{849131626053199u,2949880713719918u,3525497252765046u,1899506169886558u},
{849131626053199u,36136084613955u,2712501711325802u,1899506169886558u},
{442633855333577u,36136084613955u,2712501711325802u,2306003940606180u},
{1255629396772821u,2949880713719918u,3118999482045424u,1086510628447314u},
{1255629396772821u,239384969973766u,3118999482045424u,2102755055246369u},
{1255629396772821u,239384969973766u,747507183373293u,2102755055246369u},
{577622506624779u,239384969973766u,408503738299272u,70266201648259u},
{1594249887635338u,239384969973766u,408503738299272u,1425131119309831u},
{916817428804552u,239384969973766u,2102563578140617u,1425131119309831u},
{578101199389159u,239384969973766u,1763847348725224u,1425131119309831u},
{3288309727476683u,1594728580399718u,3118712266386796u,1425131119309831u},
{2271921692848314u,578340545771349u,408743084681462u,1425131119309831u},
{916937101995647u,1933325136624016u,408743084681462u,1425131119309831u},
{4304697762105052u,578340545771349u,1763727675534129u,2441519153938200u},
{2102623414736165u,578340545771349u,1763727675534129u,2441519153938200u},
{2102623414736165u,1340481980253757u,1001586241051721u,2441519153938200u},
{747040457928023u,1256132024175420u,1001586241051721u,2441519153938200u},
{1721552697494961u,3161485610381440u,1001586241051721u,2441519153938200u},
{1721552697494961u,3161485610381440u,1001586241051721u,2441519153938200u},
{1721552697494961u,3637824006932945u,2917857550489705u,525247844500216u},
{4114162403484450u,768875904391951u,1477924637603226u,2441519153938200u},
{4114162403484450u,287078646224464u,1959721895770713u,2441519153938200u},
{2200620524854457u,287078646224464u,4355061032568193u,46180017140720u},
{4114162403484450u,3164215041189431u,1959721895770713u,1009774533475694u},
{4114162403484450u,1484748214623204u,1959721895770713u,3639188722336940u},
{1119988482487600u,2799455309053827u,1959721895770713u,645014801340090u},
{1119988482487600u,170041120192581u,1594962163635109u,645014801340090u},
{1119988482487600u,2981835175121629u,3456808856269138u,645014801340090u},
{1119988482487600u,4387732202586153u,2050911828804614u,645014801340090u},
{417039968755338u,4387732202586153u,2050911828804614u,1347963315072352u},
{2525885509952124u,2278886661389367u,4159757370001400u,645014801340090u},
{768514225621469u,4036257945720022u,2402386085670745u,645014801340090u},
{3281071727836073u,1523700443505418u,2402386085670745u,645014801340090u},
{13328007737520u,4036257945720022u,4159757370001400u,3912758521438643u},
{2024792976728771u,4036257945720022u,4159757370001400u,1901293552447392u},
{895561067951767u,4036257945720022u,4159757370001400u,3030525461224396u},
{2024792976728771u,2907026036943018u,4406756218564157u,525062795107631u},
{2024792976728771u,2907026036943018u,1583676446621647u,2465909506835894u},
{2024792976728771u,613253090757516u,3877449392807149u,2465909506835894u},
{2024792976728771u,613253090757516u,1319023033743143u,2465909506835894u},
{2554099802485779u,83946265000508u,1319023033743143u,2465909506835894u},
{745579797196768u,1892466270289519u,1319023033743143u,2465909506835894u},
{745579797196768u,1892466270289519u,1319023033743143u,2465909506835894u},
{1076396563294898u,3039352743382270u,172136560650392u,2135092740737764u},
{2057874653338584u,3039352743382270u,172136560650392u,1153614650694078u},
{2548613698360427u,3039352743382270u,662875605672235u,4434351791048618u},
{4357133703649438u,3039352743382270u,2471395610961246u,1153614650694078u},
{3698243223515854u,3039352743382270u,1812505130827662u,1153614650694078u},
{3368797983449062u,3039352743382270u,1483059890760870u,1153614650694078u},
{3368797983449062u,3204075363415666u,1483059890760870u,1318337270727474u},
{91489658172867u,3039352743382270u,1977227750861058u,1153614650694078u},
{3451159293465760u,3039352743382270u,1565421200777568u,1153614650694078u},
{3451159293465760u,3245256018424015u,1359517925735823u,1153614650694078u},
{4068869118590995u,3039352743382270u,2183131025902803u,1153614650694078u},
{1668372838298441u,3039352743382270u,3554110930986632u,1153614650694078u},
{468124698152164u,4239600883528547u,2353862790840355u,1153614650694078u},
{4068869118590995u,638856463089716u,2353862790840355u,1495078180569182u},
{2783255095975942u,638856463089716u,2353862790840355u,3639476813455408u},
{1711055779532829u,2996669802147882u,2353862790840355u,3639476813455408u},
{1711055779532829u,2996669802147882u,2353862790840355u,3639476813455408u},
{425441756917776u,1924470485704769u,2140448084668415u,3639476813455408u},
{425441756917776u,692210139632701u,908187738596347u,3639476813455408u},
{425441756917776u,76079966596667u,292057565560313u,3639476813455408u},
{1657702102989844u,3156730831776837u,908187738596347u,2407216467383340u},
{117376670399759u,3156730831776837u,908187738596347u,3947541899973425u},
{117376670399759u,3177379183678383u,887539386694801u,3947541899973425u},
{3198027535579929u,3177379183678383u,7961214954188u,2526852050616567u},
{3187703359629156u,3177379183678383u,7961214954188u,2516527874665794u},
{3187703359629156u,3177379183678383u,3192865447604542u,3182541271653769u},
{1264877612879243u,1254553436928470u,1270039700854629u,3182541271653769u},
{8065263117305u,4408485141726505u,2903175141918u,4403323053751118u},
{308626827479673u,298302651528900u,303464739504286u,293140563553513u},
{308626827479673u,298302651528900u,2704415878953984u,293140563553513u},
{318951003430446u,2678605439077052u,2704415878953984u,293140563553513u},
{3910053536654220u,1498778221253749u,2704415878953984u,293140563553513u},
{3910053536654220u,1498778221253749u,2704415878953984u,4499967145565871u},
{2114502270042333u,3294329487865636u,2704415878953984u,3884243096777287u},
{2114502270042333u,3294329487865636u,2704415878953984u,3884243096777287u},
{165019991233300u,1344847209056603u,2704415878953984u,1934760817968254u},
{3679157018358501u,1344847209056603u,2704415878953984u,370106069652086u},
{4063984548851366u,960019678563738u,3474070939939714u,370106069652086u},
{4063984548851366u,2512002113707552u,1922088504795900u,370106069652086u},
{3287993331279459u,2512002113707552u,1146097287223993u,370106069652086u},
{4063984548851366u,184028460991831u,1922088504795900u,2325924505047296u},
{4063984548851366u,4265902548977064u,1922088504795900u,2124006504921598u},
{4164943548914215u,4265902548977064u,2023047504858749u,2124006504921598u},
{3862066548725668u,4366861549039913u,2023047504858749u,2527842505172994u},
{1770650004701627u,2275445005015872u,2023047504858749u,436425961148953u},
{3068755776870770u,977339232846729u,2023047504858749u,3321153277027892u},
{3068755776870770u,977339232846729u,2023047504858749u,3717808662955341u},
{256265003758892u,3970206163112464u,328286346762157u,3248916734260831u},
{526614039725882u,129958653798433u,328286346762157u,4168533856076188u},
{2645065487346622u,129958653798433u,328286346762157u,2446737794382897u},
{2645065487346622u,4366861549039913u,1914907890471953u,1653427022527999u},
{2645065487346622u,792528991681354u,1784167456499976u,3505963518193267u},
{2645065487346622u,1718797239513988u,857899208667342u,3505963518193267u},
{4497601983011890u,4366861549039913u,4432231766025901u,4301491332053924u},
{2181931363430305u,4366861549039913u,4432231766025901u,2116561146444316u},
{2181931363430305u,3274396456235109u,4432231766025901u,1024096053639512u},
{2181931363430305u,958725836653524u,62371394806685u,4301491332053924u},
{2181931363430305u,958725836653524u,2793534126818695u,1570328600041914u},
{2181931363430305u,3547512729436310u,4159115492824700u,204747234035909u},
{2181931363430305u,887537917038912u,1499140680427302u,2864722046433307u},
{2181931363430305u,2253119283044917u,3887374707694629u,49360501478308u},
{2181931363430305u,2217525323237611u,3851780747887323u,13766541671002u},
{2181931363430305u,2199728343333958u,3851780747887323u,13766541671002u},
{3962983197384u,16833268157366u,3774459375299984u,14369920685530u},
{3765560885348158u,16833268157366u,3774459375299984u,7934778205539u},
{3848864866154592u,3866661846058245u,3839966376202765u,3857763356106418u},
{3848864866154592u,3937849765672857u,3804372416395459u,3893357315913724u},
{3848864866154592u,3937849765672857u,3804372416395459u,3893357315913724u},
{1760748742773320u,1849733642291585u,1716256293014187u,1805241192532452u},
{716690681082684u,805675580600949u,672198231323551u,761183130841816u},
{716690681082684u,2893791703982221u,2671329455186558u,1805241192532452u},
{716690681082684u,283646549755631u,2238285323859505u,1805241192532452u},
{716690681082684u,283646549755631u,933212746746210u,500168615419157u},
{2021763258195979u,1588719126868926u,2238285323859505u,1805241192532452u},
{2021763258195979u,1588719126868926u,2238285323859505u,1805241192532452u},
{2021763258195979u,282161503972597u,498683569636123u,3544842946755834u},
{4194409143746414u,282161503972597u,2238285323859505u,3111798815428781u},
{4194409143746414u,282161503972597u,2238285323859505u,2675042069644143u},
{63783131080278u,282161503972597u,2456663696751824u,2675042069644143u},
{63783131080278u,2565852883197984u,172972317526437u,391350690418756u},
{2129096137413346u,282161503972597u,1583150205182548u,2675042069644143u},
{3598509386364518u,282161503972597u,1205628820692971u,2675042069644143u},
{3598509386364518u,4333216010840104u,1205628820692971u,1940335445168557u},
{2129096137413346u,2486281377399355u,470922196217385u,828107436203394u},
{3965862698602311u,649514816210390u,470922196217385u,2307688757406350u},
{3965862698602311u,649514816210390u,470922196217385u,2307688757406350u},
{3965862698602311u,266909395594921u,3787270078609306u,4144455318595315u},
{3965862698602311u,2116386047098616u,1580608187119602u,1937793427105611u},
{3965862698602311u,1013055101353764u,477277241374750u,834462481360759u},
{3965862698602311u,461389628481338u,4338935551481732u,282797008488333u},
{2310866279985033u,1013055101353764u,4338935551481732u,282797008488333u},
{3690029962166098u,1013055101353764u,4338935551481732u,282797008488333u},
{3690029962166098u,972378849578866u,3000448121075565u,4379611803256630u},
{2310866279985033u,2351542531759931u,3806315400242591u,1892124229514u},
{2310866279985033u,2331204405872482u,3785977274355142u,1892124229514u},
{2310866279985033u,2331204405872482u,2321035342928757u,2341373468816206u},
{2249851902322686u,2351542531759931u,2300697217041308u,2402387846478553u},
{612334334618013u,2351542531759931u,2300697217041308u,4039905414183226u},
{612334334618013u,1481938433188972u,3170301315612267u,4039905414183226u},
{3605103364897747u,1481938433188972u,177532285332533u,1047136383903492u},
{612334334618013u,228377600051156u,3170301315612267u,2786344581045410u},
{612334334618013u,2978322948328839u,3170301315612267u,420355967334584u},
{612334334618013u,1795328641473426u,4353295622467680u,420355967334584u},
{612334334618013u,1411371906906569u,3170301315612267u,3969338887900823u},
{612334334618013u,1011853120762291u,3170301315612267u,3569820101756545u},
{612334334618013u,812093727690152u,3170301315612267u,3370060708684406u},
{3097724806079539u,90866413288701u,4091288023085857u,85632664934324u},
{3991408326549788u,90866413288701u,4091288023085857u,190746109824770u},
{1941257673383175u,2141017066455314u,1841377976847105u,2041137369919244u},
{1941257673383175u,2141017066455314u,1841377976847105u,2041137369919244u},
{1541738887238897u,2540535852599592u,1042340404558549u,2041137369919244u},
{1541738887238897u,779501982607070u,280103499926722u,2041137369919244u},
{4183289692227680u,779501982607070u,1160620434922983u,2041137369919244u},
{1541738887238897u,4301569722592114u,161823469562288u,2921654304915505u},
{720361967424853u,4301569722592114u,3743031224729549u,2921654304915505u},
{720361967424853u,309673507517831u,3332342764822527u,2921654304915505u},
{1541738887238897u,3480192802778070u,572511929469310u,2510965845008483u},
{1541738887238897u,515017737471342u,3537686994776038u,2510965845008483u},
{1541738887238897u,515017737471342u,1028378312355119u,1657162587564u},
{2283032653565579u,515017737471342u,1028378312355119u,1769672078681801u},
{1827166270679770u,515017737471342u,572511929469310u,1769672078681801u},
{1171092004075556u,515017737471342u,2425746345286015u,1769672078681801u},
{843054870773449u,515017737471342u,2097709211983908u,1769672078681801u},
{1171092004075556u,2368252153288047u,572511929469310u,1769672078681801u},
{1171092004075556u,949579245426534u,3188344986543314u,1769672078681801u},
{2479008532612558u,1060335624751045u,3188344986543314u,1769672078681801u},
{1171092004075556u,617310107453001u,461755550144799u,1326646561383757u},
{1171092004075556u,1603537509695035u,461755550144799u,2312873963625791u},
{1171092004075556u,3515324118677565u,4224660572608321u,2805987664746808u},
{215198699584291u,3515324118677565u,4224660572608321u,2805987664746808u},
{215198699584291u,2559430814186300u,3761880969238073u,1387314756885295u},
{215198699584291u,3746713920362689u,2574597863061684u,1387314756885295u},
{215198699584291u,1980956309973490u,2574597863061684u,4340355473450883u},
{3198573513900648u,793673203797101u,230365748459675u,1356980659134526u},
{1113244553654275u,793673203797101u,230365748459675u,1676552008991700u},
{953458878725688u,2719216489114887u,1836337683920287u,3602095294309486u},
{1113244553654275u,2719216489114887u,3921666644166660u,1516766334063113u},
{1916230521384581u,2719216489114887u,3921666644166660u,713780366332807u},
{2317723505249734u,2719216489114887u,3921666644166660u,312287382467654u},
{2317723505249734u,2719216489114887u,2518469997182310u,2919962981047463u},
{1514737537519428u,513033874400231u,2518469997182310u,1516766334063113u},
{10153246296947u,513033874400231u,2518469997182310u,1013885705959829u},
{1766177851571070u,261593560348589u,2518469997182310u,1013885705959829u},
{10153246296947u,1267354816555157u,762445391908187u,515062670943916u},
{10153246296947u,638754031426052u,762445391908187u,1391046177037292u},
{4085914366917702u,2581330075695221u,3333622221306461u,1829037930083980u},
{448144999343635u,638754031426052u,1638428898001563u,1829037930083980u},
{4304910243441046u,638754031426052u,543449515384843u,1829037930083980u},
{4304910243441046u,1186243722734412u,543449515384843u,1829037930083980u},
{995634690651995u,3757420552132686u,543449515384843u,3305235376865534u},
{1459988568388592u,3757420552132686u,543449515384843u,2840881499128937u},
{1459988568388592u,2608704560260639u,543449515384843u,1692165507256890u},
{4099601609200411u,2608704560260639u,543449515384843u,1692165507256890u},
{2950885617328364u,1117807511320867u,2034346564324615u,201268458317118u},
{2950885617328364u,1117807511320867u,2034346564324615u,3928511080666548u},
{2981428822495582u,1117807511320867u,170725253149900u,3928511080666548u},
{2889799206993928u,1117807511320867u,2003803359157397u,3928511080666548u},
{2966157219911973u,1117807511320867u,155453650566291u,3928511080666548u},
{2041982365616420u,1117807511320867u,155453650566291u,3928511080666548u},
{3890332074207526u,3042515232830018u,2003803359157397u,1155986517779889u},
{3890332074207526u,3466423653518772u,2003803359157397u,1579894938468643u},
{3678377863863149u,3466423653518772u,1791849148813020u,1579894938468643u},
{3678377863863149u,1473917833296455u,3784354969035337u,1579894938468643u},
{1685872043640832u,3042515232830018u,2215757569501774u,3572400758690960u},
{1685872043640832u,2364193638235425u,2894079164096367u,3572400758690960u},
{138504125888000u,2364193638235425u,1346711246343535u,3572400758690960u},
{3233239961393664u,3911561555988257u,2894079164096367u,3572400758690960u},
{3233239961393664u,43141761606177u,2894079164096367u,3572400758690960u},
{1299030064202624u,43141761606177u,959869266905327u,3572400758690960u},
{2554918366799071u,721463356200770u,859114380312588u,1638190861499920u},
{331925115607104u,2944456607392737u,3861184112691887u,1638190861499920u},
{331925115607104u,526694235903937u,1443421741203087u,4055953232988720u},
{331925115607104u,526694235903937u,234540555458687u,4055953232988720u},
{1540806301351504u,2944456607392737u,3861184112691887u,624078796052353u},
{1540806301351504u,2944456607392737u,838981148330887u,2242631454372120u},
{29704819171004u,2944456607392737u,838981148330887u,3753732936552620u},
{3051907783532004u,4348106913433970u,838981148330887u,2135180278232853u},
{3051907783532004u,3700007348482987u,838981148330887u,1487080713281870u},
{1163030930806379u,1811130495757362u,838981148330887u,3375957566007495u},
{2403808218581021u,570353207982720u,783559306203563u,1487080713281870u},
{3672296427419325u,570353207982720u,218592504443566u,1487080713281870u},
{3672296427419325u,570353207982720u,218592504443566u,852836608862718u},
{3355174375209749u,253231155773144u,535714556653142u,852836608862718u},
{3989418479628901u,253231155773144u,535714556653142u,2121324817701022u},
{3196613349104961u,253231155773144u,535714556653142u,1328519687177082u},
{4385821044890871u,253231155773144u,535714556653142u,932117121915112u},
{1611003088057081u,1442438851559054u,535714556653142u,2517727382962992u},
{1611003088057081u,451432438404129u,535714556653142u,1526720969808067u},
{40211350075680u,1031217763230605u,535714556653142u,1526720969808067u},
{2602009501212006u,451432438404129u,124493468324693u,1526720969808067u},
{3303123251953693u,451432438404129u,825607219066380u,1526720969808067u},
{3303123251953693u,1877277845178911u,825607219066380u,1526720969808067u},
{3303123251953693u,463241391049833u,2239643673195458u,4366602830711927u},
{4027854907986788u,463241391049833u,112684515678989u,813798266420676u},
{2596105024889154u,463241391049833u,112684515678989u,2946661900259997u},
{4013093717179658u,463241391049833u,1529673207969493u,2946661900259997u},
{1894991274147467u,2581343834082024u,828559457227806u,3647775651001684u},
{3304599371034406u,1171735737195085u,2238167554114745u,105303920275424u},
{3304599371034406u,1171735737195085u,2238167554114745u,4009403419477875u},
{1533363505671276u,2942971602558215u,2238167554114745u,3647775651001684u},
{1533363505671276u,2942971602558215u,2238167554114745u,629294084480798u},
{24122722410833u,4452212385818658u,2238167554114745u,728926770854302u},
{2992787945744967u,1483547162484524u,2238167554114745u,728926770854302u},
{2992787945744967u,2942971602558215u,16747478581891u,4125623714998218u},
{2992787945744967u,2967879774151591u,16747478581891u,4100715543404842u},
{2992787945744967u,2980333859948279u,4293392785203u,4088261457608154u},
{3030150203135031u,2967879774151591u,41655650175267u,3465557167773754u},
{2999014988643311u,2967879774151591u,10520435683547u,3434421953282034u},
{2999014988643311u,2983447381397451u,10520435683547u,3418854346036174u},
{3014582595889171u,2936744559659871u,72790864666987u,2609338769251454u},
{3014582595889171u,2975663577774521u,33871846552337u,2609338769251454u},
{2995123086831846u,2975663577774521u,14412337495012u,2589879260194129u},
{2995123086831846u,2975663577774521u,3004852841360508u,2985393332303183u},
{3053501614003821u,2956204068717196u,3004852841360508u,2907555296073883u},
{1188550689981898u,1091253144695273u,3004852841360508u,1042604372051960u},
{3937328303371470u,1091253144695273u,3004852841360508u,158777682684311u},
{402021545900874u,1091253144695273u,1334497007911835u,158777682684311u},
{1679112807309035u,1091253144695273u,746637345298073u,158777682684311u},
{1385182976002154u,1091253144695273u,452707513991192u,158777682684311u},
{695951377207755u,1091253144695273u,1628426839218716u,158777682684311u},
{2758553184973437u,1091253144695273u,3691028646984398u,158777682684311u},
{59952240812432u,1091253144695273u,992427702823393u,158777682684311u},
{3373029078786737u,1091253144695273u,4305504540797698u,158777682684311u},
{1310427271021055u,1091253144695273u,4107853657053939u,158777682684311u},
{1200840207858164u,1091253144695273u,268364745847202u,158777682684311u},
{3943473062309603u,1091253144695273u,3010997600298641u,158777682684311u},
{213571214265757u,103984151102866u,268364745847202u,158777682684311u},
{213571214265757u,2517363103502438u,2572156635083883u,158777682684311u},
{213571214265757u,2517363103502438u,1365467158884097u,158777682684311u},
{323158277428648u,981912437813979u,597125935335875u,3669259048120778u},
{323158277428648u,3998636128313444u,597125935335875u,4272603786220671u},
{323158277428648u,3970931417170725u,21485908378701u,4272603786220671u},
{35338263950061u,3970931417170725u,337010633000007u,4272603786220671u},
{1845372478249740u,2160897202871046u,337010633000007u,3669259048120778u},
{1845372478249740u,2003134840560393u,337010633000007u,3669259048120778u},
{3590377866965452u,2003134840560393u,337010633000007u,2082016021715719u},
{3590377866965452u,3748140229276105u,3511496685810125u,3669259048120778u},
{3590377866965452u,3748140229276105u,3511496685810125u,3669259048120778u},
{1566883493381465u,3748140229276105u,1488002312226138u,1645764674536791u},
{1093596406449506u,3748140229276105u,1488002312226138u,2276814123779403u},
{160730400812839u,3748140229276105u,555136306589471u,2276814123779403u},
{1021569309407805u,88703303771138u,555136306589471u,4214573232094438u},
{3317720774978622u,88703303771138u,555136306589471u,2851287772160288u},
{160730400812839u,88703303771138u,124716852291988u,52689755250287u},
{1272792585077397u,88703303771138u,124716852291988u,1236779036556546u},
{4124975142780493u,88703303771138u,680747944424267u,1236779036556546u},
{4197002239822194u,500680201820015u,680747944424267u,1236779036556546u},
{958763490490407u,1514794582622686u,680747944424267u,1236779036556546u},
{958763490490407u,3967960595486998u,3689945049420858u,1236779036556546u},
{1187805134825603u,3967960595486998u,680747944424267u,1563768484353629u},
{1629315404790284u,3967960595486998u,680747944424267u,3019393135120981u},
{2798638000138641u,3967960595486998u,680747944424267u,1850070539772624u},
{2357127730173960u,3967960595486998u,4475017785888333u,1850070539772624u},
{3162544162830479u,3967960595486998u,1044654107116105u,1850070539772624u},
{1447362323444365u,3967960595486998u,3565252379158738u,1850070539772624u},
{589771403751308u,3967960595486998u,2707661459465681u,1850070539772624u},
{589771403751308u,1395187836407827u,187063187423048u,992479620079567u},
{589771403751308u,1395187836407827u,187063187423048u,3539165135640469u},
{589771403751308u,121845078627376u,187063187423048u,2265822377860018u},
{1863114161531759u,2200604269064346u,187063187423048u,3539165135640469u},
{1863114161531759u,355808241189342u,187063187423048u,3539165135640469u},
{4292818095811678u,355808241189342u,187063187423048u,1109461201360550u},
{3370420081874176u,3707910189406763u,3201675028107882u,3539165135640469u},
{1401915154563008u,1739405262095595u,1233170100796714u,1570660208329301u},
{417662690907424u,755152798440011u,248917637141130u,1570660208329301u},
{417662690907424u,263026566612219u,248917637141130u,4031291367468261u},
{417662690907424u,2231531493923387u,741043868968922u,2554912671984885u},
{417662690907424u,1001215914353907u,741043868968922u,3785228251554365u},
{417662690907424u,386058124569167u,125886079184182u,3170070461769625u},
{1647978270476904u,2846689283708127u,2586517238323142u,3785228251554365u},
{110083796015054u,2846689283708127u,1048622763861292u,3785228251554365u},
{110083796015054u,2846689283708127u,279675526630367u,3016281014323440u},
{3185872744938754u,539847572015352u,2586517238323142u,3785228251554365u},
{3185872744938754u,1862860158477053u,1263504651861441u,3785228251554365u},
{4446734544785216u,601998358630591u,2524366451707903u,3785228251554365u},
{4446734544785216u,601998358630591u,2524366451707903u,3154797351631134u},
{220170605168316u,539847572015352u,1325655438476680u,384470605477254u},
{1640870888438296u,539847572015352u,1325655438476680u,224632122053736u},
{1720790130150055u,2351221030073286u,1405574680188439u,2036005580111670u},
{2901732688284758u,2351221030073286u,775143780265208u,3927298279881363u},
{2626476859179022u,2351221030073286u,775143780265208u,499887951159472u},
{2488848944626154u,2351221030073286u,775143780265208u,637515865712340u},
{2764104773731890u,2075965200967550u,775143780265208u,4064926194434231u},
{2420034987349720u,2075965200967550u,775143780265208u,4064926194434231u},
{2420034987349720u,2248000094158635u,775143780265208u,4064926194434231u},
{689126333669666u,517091440478581u,775143780265208u,4064926194434231u},
{4150943641029774u,173021654096411u,3022157113518517u,603108887074123u},
{4150943641029774u,1382545767318608u,3371506760785289u,603108887074123u},
{4150943641029774u,2766744704174191u,1987307823929706u,603108887074123u},
{2417395056907419u,1382545767318608u,428434063440737u,2336657471196478u},
{3888931405579695u,1382545767318608u,428434063440737u,865121122524202u},
{3888931405579695u,646777592982470u,4107274935121427u,129352948188064u},
{1681626882571281u,2854082115990884u,4107274935121427u,1600889296860340u},
{1681626882571281u,1014661680150539u,4107274935121427u,1600889296860340u},
{3187564717201255u,1014661680150539u,4107274935121427u,94951462230366u},
{261692762835552u,2101113198675897u,1181402980755724u,3020823416596069u},
{3521047318411626u,2101113198675897u,4107274935121427u,94951462230366u},
{804918522098231u,2101113198675897u,4107274935121427u,94951462230366u},
{1453015860387064u,2101113198675897u,3459177596832594u,94951462230366u},
{3681618152817u,33081740651335u,2934819701701824u,371830471045010u},
{2610771032557408u,33081740651335u,2934819701701824u,357130409795751u},
{2942169732326454u,3590267070615287u,3266218401470870u,3914315739759703u},
{349780379171122u,3590267070615287u,1970023724893204u,357130409795751u},
{349780379171122u,3590267070615287u,1970023724893204u,357130409795751u},
{756678723257800u,3590267070615287u,1970023724893204u,2376922068979882u},
{756678723257800u,3590267070615287u,2173472896936543u,2376922068979882u},
{4171214464246786u,175731329626301u,2173472896936543u,2376922068979882u},
{2071748310914874u,2275197482958213u,2173472896936543u,2376922068979882u},
{2071748310914874u,2275197482958213u,2173472896936543u,2376922068979882u},
{338167411872606u,175731329626301u,236442825850936u,74006743604631u},
{3817309881507886u,4020759053551225u,3715585295486216u,3919034467529555u},
{3817309881507886u,4020759053551225u,3715585295486216u,3919034467529555u},
{1446884585661712u,175731329626301u,1345159999640042u,74006743604631u},
{4168219296359100u,175731329626301u,4269943882380769u,74006743604631u},
{646106522667658u,849555694710997u,747831108689327u,951280280732666u},
{646106522667658u,3424408769730074u,747831108689327u,951280280732666u},
{3017510425643396u,849555694710997u,340932764602649u,3526133355751743u},
{3017510425643396u,849555694710997u,1933533060177196u,3526133355751743u},
{2729833207964470u,849555694710997u,53255546923723u,3526133355751743u},
{3305187643322322u,274201259353145u,4101487791109595u,1070501407140418u},
{993394303550460u,2585994599125007u,197094155763186u,1789694451337733u},
{993394303550460u,2585994599125007u,197094155763186u,1789694451337733u},
{3305187643322322u,1430097929239076u,1352990825649117u,3382294746912280u},
{2367642786280699u,1430097929239076u,4319839603953903u,415445968607494u},
{2367642786280699u,3851067175433092u,2836415214801510u,415445968607494u},
{2367642786280699u,3851067175433092u,3109354980856895u,415445968607494u},
{611278631072921u,3851067175433092u,142506202552109u,3382294746912280u},
{611278631072921u,1762400474732195u,142506202552109u,1293628046211383u},
{1186839552902558u,1762400474732195u,142506202552109u,718067124381746u},
{3637490188815441u,100887747266600u,142506202552109u,718067124381746u},
{430286663466928u,1005847585296565u,142506202552109u,718067124381746u},
{430286663466928u,3472790730715277u,3185010269800458u,718067124381746u},
{2321668887056003u,1005847585296565u,882766582481910u,3760571191630095u},
{1663758236176284u,1005847585296565u,4418481842509814u,3760571191630095u},
{1663758236176284u,4089526517069955u,1334802910736424u,676892259856705u},
{121918770289589u,4089526517069955u,1334802910736424u,676892259856705u},
{3205597702062979u,2547687051183260u,2876642376623119u,2218731725743400u},
{3205597702062979u,2547687051183260u,2876642376623119u,2218731725743400u},
{1442776032424540u,784865381544821u,2876642376623119u,455910056104961u},
{337865013665820u,4310508720821699u,1113820706984680u,244999773104243u},
{337865013665820u,4310508720821699u,1113820706984680u,244999773104243u},
{508637626855141u,4310508720821699u,1113820706984680u,3705325640692159u},
{1548231173924899u,3100142560562620u,2324186867243759u,74227159914922u},
{1548231173924899u,1199207013579341u,4225122414227038u,74227159914922u},
{3274654640735399u,1199207013579341u,4225122414227038u,248739240087701u},
{1722743254097678u,2925630480389841u,2324186867243759u,248739240087701u},
{685019440519649u,1887906666811812u,1286463053665730u,248739240087701u},
{1805324960454745u,767601146876716u,1286463053665730u,248739240087701u},
{4440925347578351u,767601146876716u,1286463053665730u,3922063440789336u},
{685019440519649u,3485783240357389u,166157533730634u,4004645147146403u},
{3123125154016548u,2085401340438519u,2604263247227533u,1566539433649504u},
{3123125154016548u,2085401340438519u,2604263247227533u,1566539433649504u},
{3123125154016548u,1747868476819925u,1904072297268098u,4342178010764997u},
{1216443958669787u,1747868476819925u,1904072297268098u,2435496815418236u},
{1216443958669787u,1482156217744856u,263103360996406u,2435496815418236u},
{153594922369511u,1482156217744856u,263103360996406u,2701209074493305u},
{2036928426805633u,1482156217744856u,263103360996406u,3255981283554082u},
{3533367388084471u,1482156217744856u,263103360996406u,1759542322275244u},
{3533367388084471u,733936737105437u,1011322841635825u,1759542322275244u},
{4281586868723890u,2978595179023694u,3062534011975440u,1759542322275244u},
{4281586868723890u,3630091023873792u,2411038167125342u,1759542322275244u},
{3955838946298841u,3630091023873792u,2085290244700293u,1759542322275244u},
{214741543101746u,3304343101448743u,298680376053492u,1759542322275244u},
{214741543101746u,3304343101448743u,4118712907511365u,1759542322275244u},
{2939127614893305u,579957029657184u,4118712907511365u,1759542322275244u},
{2939127614893305u,1675603489323498u,1394326835719806u,4483928394066803u},
{2939127614893305u,762564772934903u,1394326835719806u,4483928394066803u},
{2939127614893305u,1850846193914104u,306045414740605u,3395646973087602u},
{2939127614893305u,1850846193914104u,3483268325382905u,2394986904403704u},
{3026748967188608u,1763224841618801u,306045414740605u,2394986904403704u},
{1350516159572155u,3439457649235254u,306045414740605u,2394986904403704u},
{1350516159572155u,3439457649235254u,4277574053043480u,2394986904403704u},
{3233103308211931u,1556870500595478u,4071219712020157u,2394986904403704u},
{202868244228944u,1556870500595478u,1040984648037170u,2394986904403704u},
{879869372412211u,3910104436395198u,1717985776220437u,2394986904403704u},
{1169559897978701u,235408269912373u,1717985776220437u,2394986904403704u},
{2056486340312071u,2733487468495338u,1717985776220437u,2394986904403704u},
{2056486340312071u,2733487468495338u,1717985776220437u,2394986904403704u},
{585715130437246u,4204258678370163u,3865758114278529u,2394986904403704u},
{2850256422003629u,1939717386803780u,247214566345612u,2394986904403704u},
{2850256422003629u,865831217774734u,1321100735374658u,2394986904403704u},
{2313313337489106u,328888133260211u,1858043819889181u,2394986904403704u},
{3387199506518152u,865831217774734u,784157650860135u,3468873073432750u},
{3387199506518152u,2126515362146443u,784157650860135u,3468873073432750u},
{4099215145618605u,2126515362146443u,784157650860135u,3468873073432750u},
{3223852372688955u,480509846332675u,784157650860135u,1496173289960588u},
{428149831309909u,1140165470410362u,784157650860135u,1496173289960588u},
{428149831309909u,1140165470410362u,784157650860135u,1496173289960588u},
{2195098925305350u,1140165470410362u,784157650860135u,2551106744855576u},
{3250032380200338u,1852181109510815u,72142011759682u,2551106744855576u},
{3250032380200338u,4489514746748285u,1311624378307629u,2551106744855576u},
{1931365561581603u,4489514746748285u,3869773563474311u,2551106744855576u},
{3250032380200338u,533514290892080u,1311624378307629u,2471922292784788u},
{3250032380200338u,1891773335546209u,1311624378307629u,3830181337438917u},
{3250032380200338u,632494855980565u,2570902857873273u,3830181337438917u},
{731475421069050u,1792792770457724u,2570902857873273u,1014682683042174u},
{3879671619983160u,1262134095763387u,2570902857873273u,3101561532567610u},
{3879671619983160u,1262134095763387u,2570902857873273u,4145000957330328u},
{1783853808144746u,3357951907601801u,2570902857873273u,475085046034859u},
{2305573520526105u,2836232195220442u,2570902857873273u,3101561532567610u},
{735944902225539u,4405860813521008u,2570902857873273u,1001274239572707u},
{735944902225539u,4405860813521008u,2570902857873273u,1786088548722990u},
{205286227531202u,2858579601002887u,448268159095925u,3101561532567610u},
{205286227531202u,3493968687142752u,597693382106343u,3101561532567610u},
{1849627457336977u,1064813148186694u,1457220302761835u,672405993611552u},
{1849627457336977u,4278782996293035u,3811663230212684u,2316747223417327u},
{1849627457336977u,3064205226815006u,2597085460734655u,1102169453939298u},
{1849627457336977u,3064205226815006u,1242338572597962u,2456916342075991u},
{564965128529616u,4348867555622367u,3741578670883352u,2456916342075991u},
{1849627457336977u,1779542898007645u,4620542240548u,4255310847068061u},
{1849627457336977u,1814585177672311u,4620542240548u,4220268567403395u},
{1832106317504644u,1814585177672311u,4620542240548u,4220268567403395u},
{1849627457336977u,1762021758175312u,74705101569880u,4062578308912398u},
{1849627457336977u,1762021758175312u,1893430306917809u,1805824607756144u},
{3416032803723429u,195616411788860u,3459835653304261u,239419261369692u},
{458433509273855u,3328427104561764u,1893430306917809u,239419261369692u},
{1066424784143751u,3328427104561764u,1893430306917809u,239419261369692u},
{3024431467126816u,1370420421578699u,1893430306917809u,239419261369692u},
{3024431467126816u,1218422602861225u,2045428125635283u,4003434808618348u},
{914426965426277u,1674416059013647u,1437436850765387u,4003434808618348u},
{914426965426277u,3100430376485553u,11422533293481u,4003434808618348u},
{201419806690324u,3100430376485553u,1104424238823119u,4003434808618348u},
{3813437535221506u,3100430376485553u,11422533293481u,2624402425997859u},
{3813437535221506u,3100430376485553u,3456933955853529u,2743926797117576u},
{1377674665205529u,3100430376485553u,3456933955853529u,1021171085837552u},
{367926112661458u,4110178929029624u,3456933955853529u,1021171085837552u},
{367926112661458u,2239052520845541u,3456933955853529u,1021171085837552u},
{85607881745511u,2239052520845541u,3456933955853529u,1021171085837552u},
{1162330201295526u,2239052520845541u,3456933955853529u,1021171085837552u},
{367926112661458u,3315774840395556u,1585807547669446u,2097893405387567u},
{1841850476528507u,3315774840395556u,623969041520518u,2097893405387567u},
{1841850476528507u,1360931223454043u,2578812658462031u,143049788446054u},
{3796694093470020u,1392097828097700u,3059731911536495u,655135646164175u},
{3796694093470020u,1120471596916811u,3059731911536495u,383509414983286u},
{1721620663259891u,1120471596916811u,984658481326366u,2458582845193415u},
{848845365735922u,3195545027126940u,2186956614012526u,1857433778850335u},
{2022195196431431u,3195545027126940u,684083948154826u,1857433778850335u},
{97409032807072u,1270758863502581u,2608870111779185u,1857433778850335u},
{3946981360055790u,189799695411540u,3360306444708035u,776474610759294u},
{3946981360055790u,895040697038156u,3360306444708035u,308365781690401u},
{1247661197851464u,2421011028546973u,1834336113199218u,308365781690401u},
{1071350947444810u,2421011028546973u,3183996194301381u,308365781690401u},
{74311367155955u,3770671109649136u,837296532910363u,3007685943894727u},
{1159506072648137u,3770671109649136u,396520906893728u,3007685943894727u},
{1159506072648137u,1702103425394228u,2465088591148636u,939118259639819u},
{3228073756903045u,718730446631502u,1922491238402545u,2024312965132001u},
{3228073756903045u,667819583266774u,1922491238402545u,1973402101767273u},
{642364151584410u,667819583266774u,1947946670084909u,1973402101767273u},
{642364151584410u,3278984620267773u,1897035806720181u,2024312965132001u},
{642364151584410u,3278984620267773u,1897035806720181u,1960674385926091u},
{642364151584410u,3247165330664818u,1928855096323136u,1960674385926091u},
{1944764741124614u,3247165330664818u,658273796385887u,1960674385926091u},
{642364151584410u,2008403320330524u,1928855096323136u,721912375591797u},
{642364151584410u,3898365625434920u,1928855096323136u,2611874680696193u},
{2270364888509665u,3898365625434920u,983873943770938u,2611874680696193u},
{642364151584410u,1063422167778326u,1928855096323136u,2349913112517052u},
{642364151584410u,3425875049158821u,1928855096323136u,2139384104420094u},
{3320610545110342u,747628655632889u,1928855096323136u,2034119600371615u},
{3729671641883693u,22774046714101u,1928855096323136u,2034119600371615u},
{1981487348347376u,2086751852395855u,1928855096323136u,2034119600371615u},
{1981487348347376u,2086751852395855u,1928855096323136u,2034119600371615u},
{360215604417908u,465480108466387u,3655391344301083u,2034119600371615u},
{3602759092276844u,676009116563345u,3339597832155646u,412847856442147u},
{3602759092276844u,1276115980431121u,4466027216265817u,412847856442147u},
{1576169412365009u,3302705660342956u,2439437536353982u,412847856442147u},
{3902812524210732u,676009116563345u,3039544400221758u,1539277240552318u},
{3902812524210732u,1426142696398065u,562874572409091u,2289410820387038u},
{3527745734293372u,1426142696398065u,562874572409091u,4391013858282345u},
{1801209486315425u,2027478574623932u,1688074942161171u,4015947068364985u},
{1801209486315425u,863542511522025u,750407967367771u,4015947068364985u},
{3433979036814032u,1332375998918725u,4484780555761685u,2383177517866378u},
{3433979036814032u,1332375998918725u,515991223669421u,2383177517866378u},
{3668395780512382u,1332375998918725u,750407967367771u,4250363812063335u},
{3668395780512382u,1332375998918725u,2500385889715553u,4250363812063335u},
{457387037744834u,1332375998918725u,2500385889715553u,3375374850889444u},
{1926565513554443u,746334139672850u,3961416710135319u,156218452732053u},
{3523922229548374u,746334139672850u,3961416710135319u,308839659085904u},
{1260139223436721u,2135128184610612u,1697633704023666u,2572622665197557u},
{1773944307200592u,3010117145784503u,822644742849775u,2058817581433686u},
{204558323557820u,3010117145784503u,822644742849775u,3628203565076458u},
{204558323557820u,3794810137605889u,37951751028389u,2843510573255072u},
{204558323557820u,4187156633516582u,37951751028389u,2843510573255072u},
{204558323557820u,107878581906287u,252898194383586u,2510297428196211u},
{204558323557820u,2314124180240865u,8385075602473u,2510297428196211u},
{204558323557820u,3024900483497461u,8385075602473u,2828727235542114u},
{1381597811289899u,1847860995765382u,400731571513166u,2828727235542114u},
{2595595643304373u,633863163750908u,1614729403527640u,2828727235542114u},
{26864247743671u,633863163750908u,4183460799088342u,2221728319534877u},
{1988596727297136u,1847860995765382u,3576461883081105u,259995839981412u},
{1988596727297136u,1918228861531259u,330363705747289u,3506094017315228u},
{3541277950198167u,1918228861531259u,330363705747289u,1883044928648320u},
{2729753405864713u,1918228861531259u,330363705747289u,4317618561648682u},
{4352802494531621u,295179772864351u,1953412794414197u,2694569472981774u},
{4352802494531621u,2323991133697986u,1953412794414197u,665758112148139u},
{939007113997380u,2323991133697986u,3338396814114803u,1309585453281168u},
{2870489137396467u,1036336451431928u,3338396814114803u,119260108449658u},
{2177997127546164u,343844441581625u,3338396814114803u,4030888823965106u},
{3684642819039955u,4377134828890258u,3338396814114803u,4030888823965106u},
{1607166789489046u,2421320471132534u,3338396814114803u,690090446506776u},
{1607166789489046u,2014243630310790u,3338396814114803u,283013605685032u},
{1607166789489046u,1810705209899918u,3338396814114803u,283013605685032u},
{1708935999694482u,1810705209899918u,181244395479596u,283013605685032u},
{1708935999694482u,2217782050721662u,3134858393703931u,283013605685032u},
{1708935999694482u,1963359025208072u,28590580171442u,3389281419217521u},
{1708935999694482u,1836147512451277u,155802092928237u,3389281419217521u},
{1200089948667302u,1836147512451277u,3262069906460726u,410225118441827u},
{92196336549840u,1836147512451277u,3262069906460726u,410225118441827u},
{4134045494411445u,1836147512451277u,964171924500558u,410225118441827u},
{646143142608571u,1836147512451277u,3816016712519457u,1046282682225802u},
{1241145327529924u,1836147512451277u,4411018897440810u,451280497304449u},
{1241145327529924u,1836147512451277u,1538646419990600u,2133648604911953u},
{3272333751176382u,1836147512451277u,102460181265495u,2133648604911953u},
{2677331566255029u,2431149697372630u,4411018897440810u,697462366186848u},
{820553300628048u,4287927962999611u,4411018897440810u,2554240631813829u},
{820553300628048u,4287927962999611u,1748942433441538u,2554240631813829u},
{15255102255757u,4287927962999611u,4411018897440810u,4164837028558411u},
{2151591532627684u,4287927962999611u,4411018897440810u,2028500598186484u},
{2151591532627684u,960332383000521u,1083423317441720u,3219759747813647u},
{1452696120765319u,1905409663745285u,384527905579355u,837241448559321u},
{3815389322627229u,1905409663745285u,2747221107441265u,837241448559321u},
{3815389322627229u,724063062814330u,2747221107441265u,1792231278000293u},
{3815389322627229u,724063062814330u,2269726192720779u,1792231278000293u},
{1679052892255302u,2382904578465771u,133389762348852u,837241448559321u},
{3576641865266986u,485315605454087u,133389762348852u,2030978735360536u},
{3576641865266986u,485315605454087u,1082184248854694u,2030978735360536u},
{730258405749460u,485315605454087u,3224716022161751u,2979773221866378u},
{3102244622014065u,485315605454087u,607787005601773u,2979773221866378u},
{3102244622014065u,1793780113734076u,607787005601773u,4288237730146367u},
{2038722914029449u,485315605454087u,1097672606192519u,2979773221866378u},
{1262019259741768u,485315605454087u,3756476876154059u,2979773221866378u},
{1262019259741768u,3368125049010219u,873667432597927u,96963778310246u},
{1262019259741768u,3368125049010219u,873667432597927u,4421177943644444u},
{2703423981519834u,485315605454087u,208966365107542u,2979773221866378u},
{2703423981519834u,4088827409899252u,1594369793486960u,2979773221866378u},
{3396125695709543u,4088827409899252u,1594369793486960u,2287071507676669u},
{3396125695709543u,1178017319643796u,1041671312793871u,2287071507676669u},
{3396125695709543u,1178017319643796u,1664371410235270u,2287071507676669u},
{3396125695709543u,1178017319643796u,243967173481697u,866667270923096u},
{555317222202397u,2598421556397369u,3084775646988843u,68963131610922u},
{555317222202397u,1576869389299883u,4106327814086329u,68963131610922u},
{1066093305751140u,1576869389299883u,4106327814086329u,68963131610922u},
{2549577570482832u,1576869389299883u,2063223479891357u,1090515298708408u},
{3340163688763215u,1576869389299883u,299929180428025u,2853809598171740u},
{2458516539031549u,1576869389299883u,299929180428025u,3735456747903406u},
{2017692964165716u,1576869389299883u,299929180428025u,3735456747903406u},
{3780987263629048u,1576869389299883u,740752755293858u,2412986023305907u},
{3780987263629048u,1576869389299883u,2678928326464465u,474810452135300u},
{3648016112049769u,1576869389299883u,607781603714579u,474810452135300u},
{3913958415208327u,1310927086141325u,1006695058452416u,341839300556021u},
{2612442750674826u,1310927086141325u,1643354965089522u,3581530536260129u},
{2612442750674826u,992597132822772u,1643354965089522u,23509347237468u},
{4232288368526880u,271349672407799u,3984448043356549u,23509347237468u},
{4232288368526880u,182674323896745u,4391453345186156u,23509347237468u},
{2048316369552536u,182674323896745u,4391453345186156u,2207481346211812u},
{956330370065364u,182674323896745u,4391453345186156u,3299467345698984u},
{956330370065364u,182674323896745u,4073123391867603u,3299467345698984u},
{956330370065364u,2912639322614675u,1343158393149673u,3299467345698984u},
{956330370065364u,2912639322614675u,1343158393149673u,3299467345698984u},
{2321312869424329u,2912639322614675u,4255452984845876u,387172754002781u},
{2321312869424329u,2616976096019502u,4255452984845876u,91509527407608u},
{2321312869424329u,2616976096019502u,2469144482721915u,2764807709317088u},
{1434323189638810u,2912639322614675u,2173481256126742u,3651797389102607u},
{689000551874416u,2912639322614675u,2173481256126742u,4397120026867001u},
{689000551874416u,316339232992219u,2173481256126742u,4397120026867001u},
{689000551874416u,316339232992219u,875331211315514u,4397120026867001u},
{689000551874416u,123844002274659u,322503804268680u,1055497299480151u},
{39925529468802u,123844002274659u,322503804268680u,406422277074537u},
{39925529468802u,123844002274659u,322503804268680u,81884765871730u},
{364463040671609u,772919024680273u,971578826674294u,1380034810682958u},
{364463040671609u,568691032675941u,1175806818678626u,1380034810682958u},
{364463040671609u,3711952148701845u,1175806818678626u,1277920814680792u},
{3609838152699679u,3711952148701845u,1846059270611304u,63689242675421u},
{3609838152699679u,3660895150700762u,1846059270611304u,12632244674338u},
{3609838152699679u,3660895150700762u,3635366651700220u,3686423649701303u},
{1594242957182406u,3660895150700762u,3635366651700220u,1619771456182947u},
{1594242957182406u,3711952148701845u,3584309653699137u,1721885452185113u},
{1594242957182406u,663030856425394u,535388361422686u,2653097552942125u},
{1594242957182406u,1128636906803900u,69782311044180u,2653097552942125u},
{3456667158696430u,1128636906803900u,3118703603320631u,790673351428101u},
{2292652032750165u,1128636906803900u,3118703603320631u,1954688477374366u},
{3700711166293764u,1128636906803900u,3118703603320631u,546629343830767u},
{396504884011898u,2536696040347499u,1466600462179698u,546629343830767u},
{1006614903005233u,2536696040347499u,2996681599521964u,546629343830767u},
{1006614903005233u,1771655471676366u,3761722168193097u,546629343830767u},
{4144242452528664u,1771655471676366u,1389135187340799u,2154175756011932u},
{1006614903005233u,164109059495201u,3761722168193097u,2919216324683065u},
{1006614903005233u,585361981250217u,3761722168193097u,3340469246438081u},
{795988442127725u,585361981250217u,3551095707315589u,3340469246438081u},
{130182511934680u,2195453397634857u,45366143033377u,3795648715753618u},
{24869281495926u,2195453397634857u,45366143033377u,3795648715753618u},
{24869281495926u,2195453397634857u,45366143033377u,3795648715753618u},
{235495742373434u,247158634517908u,98022758252754u,2742516411366078u},
{235495742373434u,2610874873317636u,103854204324991u,2742516411366078u},
{2213034536136190u,1949751460039305u,2344676074184632u,2081392998087747u},
{2213034536136190u,1949751460039305u,2344676074184632u,2081392998087747u},
{2739600688329960u,1423185307845535u,3397808378572172u,2081392998087747u},
{928800609404846u,1423185307845535u,3892193077012861u,2081392998087747u},
{23400569942289u,4139385426233206u,2986793037550304u,2081392998087747u},
{23400569942289u,2328585347308092u,1092623601206369u,1175992958625190u},
{3439493057281583u,2328585347308092u,2286900668598681u,1175992958625190u},
{3439493057281583u,620539103638445u,2286900668598681u,1175992958625190u},
{1050938922496959u,620539103638445u,1689762134902525u,1259362316044011u},
{2543785256737349u,620539103638445u,1689762134902525u,1474562225473268u},
{3290208423857544u,620539103638445u,2436185302022720u,1474562225473268u},
{3290208423857544u,1101350641913171u,247327520078347u,1955373763747994u},
{1582162180187897u,2809396885582818u,3397808378572172u,993750687198542u},
{1582162180187897u,2809396885582818u,2195779532885357u,3423014238280278u},
{4024028661123686u,2809396885582818u,2195779532885357u,981147757344489u},
{354927474792976u,417942124063241u,930736037928277u,3423014238280278u},
{354927474792976u,417942124063241u,323420150157843u,3423014238280278u},
{51269530907759u,114284180178024u,19762206272626u,4333988069935929u},
{51269530907759u,3454521562915411u,627078094043060u,4030330126050712u},
{51269530907759u,3271185266337670u,810414390620801u,4030330126050712u},
{902082538909672u,3271185266337670u,1661227398622714u,142937679196629u},
{902082538909672u,2086633902623671u,1661227398622714u,2845778762336713u},
{3938661977761842u,568344183197586u,4364068481762798u,142937679196629u},
{2253503080479714u,568344183197586u,4364068481762798u,142937679196629u},
{2253503080479714u,1410923631838650u,985517127837693u,3521489033121734u},
{560110623836737u,1410923631838650u,985517127837693u,1836330135839606u},
{560110623836737u,1410923631838650u,3942778757442266u,1836330135839606u},
{2464147942639980u,1410923631838650u,3942778757442266u,2889554446640936u},
{762521926636154u,1208512329039233u,985517127837693u,2889554446640936u},
{33498468436072u,1937535787239315u,985517127837693u,2889554446640936u},
{4206084835142599u,1937535787239315u,985517127837693u,2889554446640936u},
{3071810311190957u,1937535787239315u,985517127837693u,4023828970592578u},
{1167772992387714u,1937535787239315u,4388340699692619u,256493669637611u},
{1167772992387714u,1937535787239315u,1552654389813514u,2322417184665115u},
{134811234873962u,1937535787239315u,3355378942178867u,519692632299762u},
{2463933712563617u,904574029725563u,782891594961913u,1026256464489212u},
{1684253871144590u,904574029725563u,782891594961913u,3211753542886u},
{2195776226617753u,3998500778983106u,3097138502800429u,3211753542886u},
{1684253871144590u,1416096385198726u,3097138502800429u,3211753542886u},
{1684253871144590u,1550175128171658u,3097138502800429u,3211753542886u},
{1617214499658124u,1550175128171658u,3097138502800429u,3211753542886u},
{1818332614117522u,1483135756685192u,70251125029352u,2896020388341031u},
{1650734185401357u,1483135756685192u,70251125029352u,3063618817057196u},
{3147418031415279u,1483135756685192u,70251125029352u,1566934971043274u},
{3147418031415279u,734793833678231u,818593048036313u,1566934971043274u},
{3895759954422240u,2979819602699114u,2482875322766400u,1566934971043274u},
{3895759954422240u,3437789778560677u,2024905146904837u,1566934971043274u},
{1795920058974056u,1337949883112493u,3666774866491458u,1566934971043274u},
{1795920058974056u,1605909075114425u,841005603179779u,650994619320148u},
{746000111249964u,1605909075114425u,841005603179779u,650994619320148u},
{221040137387918u,1080949101252379u,316045629317733u,126034645458102u},
{746000111249964u,1605909075114425u,316045629317733u,1175954593182194u},
{746000111249964u,293509140459310u,316045629317733u,1175954593182194u},
{746000111249964u,519754625854637u,89800143922406u,1175954593182194u},
{746000111249964u,3913877205190088u,89800143922406u,632877368552300u},
{2058400045905079u,1832154560509752u,2171522788602742u,1945277303207415u},
{2058400045905079u,3642338592875141u,2171522788602742u,361338756237353u},
{2850369319390110u,3642338592875141u,2171522788602742u,361338756237353u},
{1266430772420048u,3416093107479814u,2171522788602742u,361338756237353u},
{1266430772420048u,2341261939949931u,3246353956132625u,361338756237353u},
{1266430772420048u,898754340002295u,3246353956132625u,1803846356184989u},
{2708938372367684u,3783769539897567u,3246353956132625u,4321185123662508u},
{2708938372367684u,177500540028477u,3246353956132625u,714916123793418u},
{905803872433139u,177500540028477u,3246353956132625u,1443219456198080u},
{4147921206099898u,2344786706165353u,3246353956132625u,1443219456198080u},
{195124371105587u,1252331707558360u,4236622465866u,1443219456198080u},
{3792581455436122u,532840290692253u,723728039331973u,1443219456198080u},
{363982330898920u,1083473747765027u,723728039331973u,1443219456198080u},
{2353598621703908u,2522456581497241u,723728039331973u,4321185123662508u},
{639299059435307u,4236756143765842u,723728039331973u,2606885561393907u},
{1580877820466274u,4236756143765842u,723728039331973u,3379606362631541u},
{639299059435307u,1918593740052940u,1496448840569607u,2775743521187240u},
{639299059435307u,3850395743147025u,1496448840569607u,2993245962012724u},
{2244847401291166u,530547839022565u,1387697620156865u,2993245962012724u},
{2244847401291166u,3904771353353396u,1387697620156865u,3047621572219095u},
{584923449228936u,2190471791084795u,1387697620156865u,2993245962012724u},
{584923449228936u,2190471791084795u,1387697620156865u,448984423713008u},
{584923449228936u,918341021934937u,1387697620156865u,115566851007007u},
{1857054218378794u,1251758594640938u,3598541585750580u,115566851007007u},
{1857054218378794u,1554406406509866u,3295893773881652u,115566851007007u},
{1705730312444330u,1554406406509866u,3295893773881652u,115566851007007u},
{1705730312444330u,4432085517515583u,3447217679816116u,2690598150143796u},
{1705730312444330u,1327420547608170u,342552709908703u,3068907914979956u},
{1705730312444330u,1516575430026250u,153397827490623u,3068907914979956u},
{1705730312444330u,1611152871235290u,153397827490623u,58820386281583u},
{1989462636071450u,1516575430026250u,3258062797398036u,2785175591352836u},
{1753019033048850u,1516575430026250u,3258062797398036u,11531665677063u},
{1753019033048850u,1634797231537550u,3258062797398036u,129753467188363u},
{1871240834560150u,1280131827003650u,3612728201931936u,129753467188363u},
{1871240834560150u,1575686330781900u,3317173698153686u,129753467188363u},
{1723463582671025u,1575686330781900u,3317173698153686u,129753467188363u},
{1723463582671025u,4467552057968973u,3464950950042811u,2726064690597186u},
{1723463582671025u,3095507820319999u,3464950950042811u,1354020452948212u},
{1723463582671025u,2409485701495512u,3464950950042811u,667998334123725u},
{1723463582671025u,2409485701495512u,1380452523258781u,2066474642083268u},
{2435917771806081u,2409485701495512u,4150973068867298u,667998334123725u},
{707646439589579u,681214369279010u,2422701736650796u,667998334123725u},
{707646439589579u,681214369279010u,1558566070542545u,667998334123725u},
{813374720831855u,681214369279010u,747294545055432u,615134193502587u},
{315226712001307u,681214369279010u,747294545055432u,249146536224884u},
{66152707586033u,681214369279010u,498220540640158u,249146536224884u},
{3522695372019037u,4137757033712014u,1362356206748409u,1977417868441386u},
{1669887037594898u,4137757033712014u,3830226202865525u,1977417868441386u},
{2903822035653456u,4137757033712014u,743482870382828u,1977417868441386u},
{2903822035653456u,3520789534682735u,1360450369412107u,1977417868441386u},
{441669551545246u,432140364863736u,4447193701894804u,118892022008341u},
{4138709952380165u,432140364863736u,4447193701894804u,123656615349096u},
{126038912019474u,743006411048753u,434522661534113u,1051490160563392u},
{2287807455292328u,1976941409107311u,434522661534113u,3519360156680508u},
{589955684626622u,3674793179773017u,434522661534113u,3519360156680508u},
{589955684626622u,3674793179773017u,434522661534113u,3519360156680508u},
{3985659225958034u,279089638441605u,2132374432199819u,2670434271347655u},
{4254689145531952u,10059718867687u,2132374432199819u,2401404351773737u},
{4389204105318911u,10059718867687u,2132374432199819u,2266889391986778u},
{2199631912093299u,10059718867687u,4456461585212390u,2266889391986778u},
{4157507022379261u,69909005386110u,4090249542485781u,2651525492630u},
{1104845815480493u,1239360775267452u,1037588335587013u,1172103295373972u},
{1104845815480493u,3976326016799467u,3909068536905987u,1172103295373972u},
{701300936119616u,3976326016799467u,1037588335587013u,4312613416266864u},
{701300936119616u,3976326016799467u,1037588335587013u,4312613416266864u},
{50688365683352u,3976326016799467u,386975765150749u,4312613416266864u},
{2002526076992144u,2024488305490675u,386975765150749u,3662000845830600u},
{375994650901484u,3651019731581335u,386975765150749u,3662000845830600u},
{375994650901484u,4464285444626665u,386975765150749u,2848735132785270u},
{375994650901484u,4464285444626665u,386975765150749u,2848735132785270u},
{1595893220469479u,4057652588104000u,793608621673414u,1222203706694610u},
{1810190762980077u,4057652588104000u,793608621673414u,3041070446797337u},
{1810190762980077u,1917339534235376u,793608621673414u,900757392928713u},
{1810190762980077u,4271950130614598u,579311079162816u,3041070446797337u},
{1810190762980077u,847183007301064u,4004078202476350u,3041070446797337u},
{1810190762980077u,847183007301064u,4004078202476350u,365679129461557u},
{3736206274338103u,633551057599805u,1328686885140570u,3041070446797337u},
{472495104312187u,2184878665968954u,1328686885140570u,3041070446797337u},
{472495104312187u,2184878665968954u,1328686885140570u,3041070446797337u},
{3000806458475433u,2184878665968954u,1328686885140570u,512759092634091u},
{3816734250981912u,3897262227625721u,3776470262660007u,3856998239303816u},
{1736650781393810u,1817178758037619u,1696386793071905u,1776914769715714u},
{696609046599759u,777137023243568u,656345058277854u,1776914769715714u},
{696609046599759u,2857220492831670u,2655900551222147u,1776914769715714u},
{696609046599759u,4377019106700842u,3296713383584886u,1776914769715714u},
{696609046599759u,4377019106700842u,2536814076650300u,1776914769715714u},
{1456508353534345u,3617119799766256u,2536814076650300u,897928988209281u},
{1456508353534345u,3617119799766256u,2536814076650300u,637065809313835u},
{1456508353534345u,1586939942982068u,2536814076650300u,637065809313835u},
{1456508353534345u,2108666300772960u,4436562343986765u,2667245666098023u},
{1456508353534345u,571850014589974u,3551904005042394u,2667245666098023u},
{3994233174514580u,571850014589974u,3551904005042394u,129520845117788u},
{2283041594552277u,571850014589974u,3551904005042394u,1840712425080091u},
{2283041594552277u,1398383255607906u,2725370764024462u,1840712425080091u},
{2283041594552277u,1398383255607906u,2725370764024462u,1840712425080091u},
{2283041594552277u,365216704335491u,807545873807676u,3758537315296877u},
{2134533382224233u,1398383255607906u,3610029102968833u,2873878976352506u},
{3241954039660670u,1398383255607906u,1766458318916069u,2873878976352506u},
{3241954039660670u,2320168647634288u,1766458318916069u,844672926889687u},
{3241954039660670u,2505803913044343u,3610029102968833u,2873878976352506u},
{3241954039660670u,937490559594715u,1305565622902878u,2873878976352506u},
{3241954039660670u,153333882869901u,1305565622902878u,2089722299627692u},
{3241954039660670u,3634032378023077u,1305565622902878u,1697643961265285u},
{3241954039660670u,1329568897957122u,1305565622902878u,3265957314714913u},
{3241954039660670u,2285761468808896u,1305565622902878u,349373052051104u},
{3241954039660670u,2763857754234783u,1305565622902878u,827469337476991u},
{1281562347848635u,2285761468808896u,1783661908328765u,2787861029289026u},
{2978902621893483u,588421194764048u,86321634283917u,1090520755244178u},
{2130232484871059u,588421194764048u,4329672319396037u,241850618221754u},
{432892210826211u,3983101742853744u,4329672319396037u,3636531166311450u},
{432892210826211u,1861426400297684u,4329672319396037u,1514855823755390u},
{432892210826211u,800588729019654u,3268834648118007u,454018152477360u},
{432892210826211u,270169893380639u,2738415812478992u,454018152477360u},
{432892210826211u,800588729019654u,3268834648118007u,984436988116375u},
{1942787559020470u,800588729019654u,3268834648118007u,2126635818117191u},
{1371688144020062u,4023782322215137u,45641054922524u,2697735233117599u},
{1942787559020470u,2310484077213913u,1758939299923748u,2126635818117191u},
{1942787559020470u,515039021519450u,331190762422728u,2126635818117191u},
{4452106883465443u,1228913290269960u,2840510086867701u,2126635818117191u},
{147342503326007u,1228913290269960u,3554384355618211u,1066583798809614u},
{147342503326007u,1228913290269960u,688127896797983u,1769698683741936u},
{147342503326007u,1228913290269960u,688127896797983u,336570454331822u},
{147342503326007u,512349175564903u,688127896797983u,336570454331822u},
{3013598962146235u,2662041519680074u,2837820240913154u,2486262798446993u},
{1046409954150512u,2662041519680074u,2837820240913154u,870631232917431u},
{1854225736915293u,2662041519680074u,3645636023677935u,870631232917431u},
{1046409954150512u,2310484077213913u,414372892618811u,4453451806442716u},
{1046409954150512u,3697986472594165u,414372892618811u,4453451806442716u},
{352658756460386u,3697986472594165u,414372892618811u,4453451806442716u},
{2433912349530764u,1616732879523787u,1108124090308937u,3759700608752590u},
{699534355305449u,1616732879523787u,1108124090308937u,3759700608752590u},
{699534355305449u,2892511611639933u,1566723352418106u,3759700608752590u},
{1796022983472691u,61644989247376u,928833986360033u,3759700608752590u},
{4168290343756079u,1158133617414618u,2663211980585348u,2483921876636444u},
{4078645291781627u,1158133617414618u,2663211980585348u,2573566928610896u},
{4078645291781627u,1202956143401844u,2663211980585348u,2618389454598122u},
{1247778669389070u,1023666039452940u,2797679558547026u,2573566928610896u},
{1247778669389070u,4011411502800788u,2685623243578961u,2573566928610896u},
{1247778669389070u,2629595086094929u,4067439660284820u,1191750511905037u},
{1359834984357135u,4011411502800788u,2685623243578961u,1079694196936972u},
{1359834984357135u,1882658720257967u,556870461036140u,1079694196936972u},
{3749999634850372u,1882658720257967u,556870461036140u,818282328986556u},
{1751952786282759u,3880705568825580u,2816329177554169u,818282328986556u},
{1621246852307551u,3880705568825580u,164752659110516u,818282328986556u},
{1621246852307551u,3880705568825580u,2750976210566565u,818282328986556u},
{3717323151356570u,1784629269776561u,654899911517546u,818282328986556u},
{3717323151356570u,15317805665562u,2587593793097555u,1145047163924576u},
{3717323151356570u,1866320478511066u,2587593793097555u,736591120252051u},
{2791821814933818u,1866320478511066u,1662092456674803u,736591120252051u},
{123907054743264u,315184600260385u,28268281984703u,3921551173192832u},
{123907054743264u,315184600260385u,4384301841404208u,3921551173192832u},
{123907054743264u,83809266154697u,4384301841404208u,4152926507298520u},
{8219387690420u,83809266154697u,4384301841404208u,4268614174351364u},
{8219387690420u,39105778853273u,108463859161837u,3378604927804322u},
{8219387690420u,39105778853273u,50620025635415u,3378604927804322u},
{8219387690420u,10183862090062u,21698108872204u,3378604927804322u},
{123907054743264u,96949612379695u,137385775925048u,110428333561479u},
{123907054743264u,38123541653452u,51602262835236u,110428333561479u},
{123907054743264u,81015298198358u,51602262835236u,8710506290330u},
{557735806191429u,3985474061231843u,196211846651291u,3623950101691705u},
{557735806191429u,3717700771872186u,196211846651291u,3356176812332048u},
{1053146410411395u,330098491331120u,1414670369951532u,691622450871257u},
{1053146410411395u,3469995469762203u,3831519429302340u,691622450871257u},
{1776194329491670u,4440748690952461u,443917148761274u,3108471510222065u},
{1776194329491670u,1538523021006524u,206245840276128u,3108471510222065u},
{1776194329491670u,1657358675249097u,3227307164464638u,87410186033555u},
{12155233847278u,4422252972958258u,3227307164464638u,3108471510222065u},
{3286724991585925u,3167889337343352u,3227307164464638u,3108471510222065u},
{3286724991585925u,3167889337343352u,3227307164464638u,3108471510222065u},
{3524396300071071u,2930218028858206u,3227307164464638u,2633128893251773u},
{1368852750407463u,774674479194598u,3227307164464638u,1071763614801030u},
{1368852750407463u,291080975575659u,3227307164464638u,2149535389632834u},
{829966862991561u,291080975575659u,3227307164464638u,2688421277048736u},
{2446624525239267u,4007989803690010u,3227307164464638u,532877727385128u},
{1099409806699512u,2660775085150255u,3227307164464638u,1880092445924883u},
{1099409806699512u,2553699805194761u,3227307164464638u,425802447429634u},
{1099409806699512u,2767850365105749u,1665941886013895u,532877727385128u},
{1099409806699512u,1367098006588247u,265189527496393u,532877727385128u},
{399033627440761u,666721827329496u,265189527496393u,532877727385128u},
{2500162165217014u,1367098006588247u,3066694244531397u,1933630085902630u},
{2500162165217014u,3684570534049508u,749221717070136u,1933630085902630u},
{2500162165217014u,3092366349633261u,749221717070136u,1341425901486383u},
{569516981357092u,234033847959480u,4251102613363891u,362394373468797u},
{3955000521155768u,234033847959480u,4251102613363891u,530135940167603u},
{3955000521155768u,317904631308883u,21802539100759u,614006723517006u},
{1840350484024202u,2432554668440449u,21802539100759u,614006723517006u},
{1840350484024202u,572071331842305u,359840022983584u,1206210907933253u},
{783025465458419u,572071331842305u,359840022983584u,148885889367470u},
{783025465458419u,677548398650362u,254362956175527u,148885889367470u},
{783025465458419u,1734873417216145u,3426338011872876u,4378185963630602u},
{783025465458419u,1258949441337282u,3426338011872876u,3902261987751739u},
{3664299999812308u,1258949441337282u,1020987453397850u,3902261987751739u},
{307101489579556u,281370810498845u,1522642108357424u,3902261987751739u},
{307101489579556u,3889396648211384u,319966829119911u,3902261987751739u},
{307101489579556u,3300924348132983u,908439129198312u,3902261987751739u},
{1202675279237513u,3300924348132983u,601337639618756u,3902261987751739u},
{1509776768817069u,2993822858553427u,3006688198093782u,1496911429276713u},
{1509776768817069u,742023044868179u,754888384408534u,1496911429276713u},
{383876861974445u,742023044868179u,754888384408534u,371011522434089u},
{793484403029601u,332415503813023u,396742201514800u,729157705327823u},
{230534449608289u,332415503813023u,396742201514800u,166207751906511u},
{230534449608289u,50940527102367u,115267224804144u,166207751906511u},
{26772341198821u,254702635511835u,13386170599410u,268088806111245u},
{26772341198821u,113965147156507u,13386170599410u,127351317755917u},
{26772341198821u,43596402978843u,13386170599410u,56982573578253u},
{26772341198821u,8412030890011u,13386170599410u,21798201489421u},
{28308589727609u,6875782361223u,31746480908220u,3437891180611u},
{10716403683193u,6875782361223u,14154294863804u,3437891180611u},
{1920310660985u,6875782361223u,5358201841596u,3437891180611u},
{805460282717u,7990632739491u,402730141358u,8393362880849u},
{805460282717u,3592586228387u,402730141358u,3995316369745u},
{805460282717u,1393562972835u,402730141358u,1796293114193u},
{1828278158033u,370745097519u,2013650706792u,185372548759u},
{728766530257u,370745097519u,914139079016u,185372548759u},
{179010716369u,370745097519u,364383265128u,185372548759u},
{179010716369u,95867190575u,89505358184u,185372548759u},
{70419861013u,204458045931u,172648883978u,102229022965u},
{70419861013u,67019092459u,35209930506u,102229022965u},
{1700384277u,67019092459u,35209930506u,33509546229u},
{8501921385u,60217555351u,38610699060u,30108777675u},
{8501921385u,25857816983u,4250960692u,30108777675u},
{8501921385u,8677947799u,4250960692u,12928908491u},
{8149868557u,9030000627u,4074934278u,13104934905u},
{8149868557u,440066035u,4074934278u,4515000313u},
{3854901261u,440066035u,4074934278u,220033017u},
{1707417613u,440066035u,1927450630u,220033017u},
{2094637121u,52846527u,1047318560u,1100165087u},
{1020895297u,52846527u,1047318560u,26423263u},
{484024385u,52846527u,510447648u,26423263u},
{272638277u,264232635u,404754594u,132116317u},
{4202821u,264232635u,136319138u,132116317u},
{4202821u,130014907u,2101410u,132116317u},
{21014105u,113203623u,10507052u,123710675u},
{21014105u,46094759u,10507052u,56601811u},
{21014105u,12540327u,10507052u,23047379u},
{4236889u,12540327u,10507052u,6270163u},
{4407229u,12369987u,2203614u,14573601u},
{4407229u,3981379u,2203614u,6184993u},
{212925u,3981379u,2203614u,1990689u},
{1064625u,3129679u,2629464u,1564839u},
{1064625u,1032527u,532312u,1564839u},
{16049u,1032527u,532312u,516263u},
{80245u,968331u,564410u,484165u},
{80245u,444043u,40122u,484165u},
{80245u,181899u,40122u,222021u},
{80245u,50827u,40122u,90949u},
{8009u,123063u,69540u,61531u},
{8009u,57527u,4004u,61531u},
{8009u,24759u,4004u,28763u},
{7277u,25491u,20022u,12745u},
{7277u,9107u,3638u,12745u},
{7277u,915u,3638u,4553u},
{3617u,4575u,1808u,6383u},
{3617u,479u,1808u,2287u},
{1569u,479u,1808u,239u},
{545u,479u,784u,239u},
{677u,347u,850u,173u},
{165u,347u,338u,173u},
{165u,91u,82u,173u},
{57u,199u,156u,99u},
{57u,71u,28u,99u},
{57u,7u,28u,35u},
{29u,35u,14u,49u},
{29u,3u,14u,17u},
{13u,3u,14u,1u},
{0u,0u,6u,1u},
{0u,0u,0u,7u},
{0u,0u,0u,0u},
{0u,0u,0u,0u},
{0u,0u,0u,0u},
{0u,0u,0u,0u},
{0u,0u,0u,0u},
{0u,0u,0u,0u},
{0u,0u,0u,0u},
{0u,0u,0u,0u},
{0u,0u,0u,0u},
{0u,0u,0u,0u},
{0u,0u,0u,0u},
{0u,0u,0u,0u},
{0u,0u,0u,0u},
{0u,0u,0u,0u},
{0u,0u,0u,0u},
{0u,0u,0u,0u},
{0u,0u,0u,0u},
{0u,0u,0u,0u},
{3u,5u,15u,17u},
{16u,17u,3u,4u},
{10u,23u,22u,10u},
{7u,1u,19u,13u},
{32u,101u,94u,38u},
{18u,115u,80u,52u},
{11u,122u,73u,59u},
{136u,122u,448u,434u},
{445u,438u,132u,125u},
{287u,596u,599u,283u},
{1537u,1221u,3099u,2783u},
{1458u,1300u,3020u,2862u},
{2981u,2902u,1418u,1339u},
{2180u,578u,617u,2140u},
{2180u,6828u,9992u,14640u},
{3342u,5666u,11154u,13478u},
{3923u,5085u,11735u,12897u},
{35173u,67585u,74235u,28522u},
{43276u,59482u,4213u,20419u},
{8265u,16368u,47327u,55430u},
{8265u,328868u,203577u,133555u},
{186072u,151061u,381384u,346373u},
{79663u,257470u,274975u,62157u},
{221771u,115362u,26458u,310674u},
{1003021u,115362u,26458u,1091924u},
{292825u,825558u,1269387u,1802120u},
{1890852u,1180656u,914289u,204093u},
{1890852u,1180656u,6773664u,6063468u},
{1713303u,1358205u,6596115u,6241017u},
{6507341u,6329792u,1624528u,1446979u},
{26038591u,35626667u,1624528u,11212604u},
{28435610u,33229648u,4021547u,8815585u},
{5220057u,7617076u,29634119u,32031138u},
{18026343u,43638915u,42440405u,19224852u},
{115682593u,92467040u,237752905u,214537352u},
{170913861u,37235772u,48843548u,159306084u},
{198529495u,9620138u,76459182u,131690450u},
{686810745u,986182638u,76459182u,375831075u},
{456477937u,1216515446u,1066829499u,606163883u},
{341311533u,110978725u,951663095u,721330287u},
{4003420908u,4993791225u,951663095u,1942033412u},
{2725134581u,168561927u,5776892393u,3220319739u},
{5137749230u,3859462903u,2085991417u,807705090u},
{3292298742u,5704913391u,240540929u,2653155578u},
{27706361242u,5704913391u,12447572179u,20963702453u},
{14576604748u,18834669885u,29835393810u,3575880822u},
{8011726501u,25399548132u,23270515563u,10140759069u},
{8011726501u,55917126257u,84305671813u,132211071569u},
{19988076440u,43940776318u,96282021752u,120234721630u},
{102270196722u,114246546661u,25976251409u,37952601348u},
{560033868597u,266834437286u,178564142034u,648304163848u},
{295999147488u,530869158395u,677468874050u,149399431832u},
{545451513496u,281416792387u,163981786933u,662886518949u},
{670177696500u,156690609383u,288707969937u,538160335945u},
{670177696500u,2445508968758u,2577526329312u,538160335945u},
{3021359147377u,94327517881u,1114010514564u,2001676150693u},
{2289601240003u,826085425255u,382252607190u,2733434058067u},
{9918995771253u,4640782690880u,382252607190u,14177525854942u},
{13367814083191u,1191964378942u,3831070919128u,10728707543004u},
{15092223239160u,18541041551098u,5555480075097u,9004298387035u},
{15092223239160u,37614527879223u,62775939059472u,85298243699535u},
{44564657309332u,8142093809051u,92248373129644u,55825809629363u},
{59300874344418u,88773308414590u,11617158524105u,41089592594277u},
{66668982861961u,81405199897047u,18985267041648u,33721484076734u},
{352771277783836u,176772631537672u,114352698682273u,415191210639234u},
{308771616222295u,220772293099213u,70353037120732u,459190872200775u},
{48353206339962u,4353544778421u,286771785441524u,242772123879983u},
{48353206339962u,481190702981546u,1240446101847774u,1673283598489358u},
{156562580500358u,372981328821150u,1348655476008170u,1565074224328962u},
{210667267580556u,318876641740952u,1402760163088368u,1510969537248764u},
{210667267580556u,2703062432756577u,1186341414767576u,3949260015344587u},
{210667267580556u,2703062432756577u,3813998297644092u,1592126567869061u},
{210667267580556u,1524495709018814u,2635431573906329u,278298126430803u},
{2046148212037448u,867581488299685u,2635431573906329u,278298126430803u},
{1389233991318319u,3881629156494340u,2635431573906329u,935212347149932u},
{1389233991318319u,1785321960528131u,2635431573906329u,935212347149932u},
{3683585171889434u,1785321960528131u,2635431573906329u,737168362545026u},
{3997496506411489u,51412018542342u,539124377940120u,737168362545026u},
{3997496506411489u,51412018542342u,539124377940120u,638146370242573u},
{588635374091347u,687657366393800u,539124377940120u,638146370242573u},
{390591389486441u,885701350998706u,143036408730308u,638146370242573u},
{3085241878671042u,885701350998706u,143036408730308u,638146370242573u},
{3085241878671042u,1985471614834874u,4432567123263342u,638146370242573u},
{2535356746752958u,1985471614834874u,4432567123263342u,638146370242573u},
{445366559892260u,171490707863165u,4432567123263342u,3882681991345258u},
{170423993933218u,171490707863165u,4157624557304300u,3882681991345258u},
{32952710953697u,4433100480228316u,4157624557304300u,4020153274324779u},
{307895276912739u,2508502518515022u,4157624557304300u,3470268142406695u},
{4501302764753103u,3813946349855498u,4157624557304300u,3470268142406695u},
{342529776140106u,3813946349855498u,4157624557304300u,3470268142406695u},
{2404599020832921u,2439233520060288u,4157624557304300u,720842482816275u},
{668890733975225u,703525233202592u,4157624557304300u,720842482816275u},
{668890733975225u,703525233202592u,4157624557304300u,720842482816275u},
{1536744877404073u,4174941806917984u,686207983588908u,3324404913102819u},
{1536744877404073u,2005306448345864u,2855843342161028u,1154769554530699u},
{451927198118013u,920488769059804u,3940661021447088u,69951875244639u},
{451927198118013u,378079929416774u,3940661021447088u,4483069861090118u},
{3706380235976193u,920488769059804u,2313434502517998u,2239587233816759u},
{3706380235976193u,920488769059804u,3669456601625573u,883565134709184u},
{4347467651179361u,920488769059804u,3669456601625573u,242477719506016u},
{1635423452964211u,2276510868167379u,4384391285529980u,168630450804777u},
{1635423452964211u,1955967160565795u,4384391285529980u,168630450804777u},
{1795695306765003u,1955967160565795u,4224119431729188u,8358597003985u},
{1795695306765003u,2597054575768963u,2941944601322852u,649446012207153u},
{1795695306765003u,2196374941266983u,4143983504828792u,248766377705173u},
{1795695306765003u,1996035124015993u,3943643687577802u,48426560454183u},
{1795695306765003u,1895865215390498u,4444493230705277u,48426560454183u},
{1695525398139508u,2196374941266983u,4043813596203297u,348936286330668u},
{1695525398139508u,2196374941266983u,1445100626575770u,1945950169703245u},
{145744141762007u,3746156197644484u,1445100626575770u,396168913325744u},
{145744141762007u,1100210601021881u,443401540320820u,1397867999580694u},
{145744141762007u,622977371391944u,920634769950757u,1397867999580694u},
{145744141762007u,1159251384765726u,920634769950757u,384360756576975u},
{3245306654517009u,86703358018162u,3006690039702040u,3483923269331977u},
{3245306654517009u,1427388391452617u,1188771776637648u,3483923269331977u},
{3245306654517009u,2336347522984813u,279812645105452u,3483923269331977u},
{2790827088750911u,2336347522984813u,279812645105452u,3483923269331977u},
{3699786220283107u,1427388391452617u,734292210871550u,4392882400864173u},
{2563587305867862u,1427388391452617u,734292210871550u,4392882400864173u},
{2563587305867862u,1427388391452617u,3131686763075484u,1995487848660239u},
{1177394944705729u,291189477037372u,3131686763075484u,2245481295407127u},
{1177394944705729u,291189477037372u,4330384039177451u,1046784019305160u},
{3731035401126468u,291189477037372u,4330384039177451u,890538115088355u},
{708657232055314u,291189477037372u,109308594004330u,890538115088355u},
{499923354546343u,291189477037372u,1099271992597326u,890538115088355u},
{994905053842841u,291189477037372u,3991648244097758u,890538115088355u},
{43698627389123u,1242395903491090u,643047265440106u,1841744541542073u},
{3392299606046775u,2441093179593057u,395556415791857u,3535423516940538u},
{2916696392819916u,2441093179593057u,395556415791857u,3535423516940538u},
{2916696392819916u,2441093179593057u,3154497999433345u,2678894786206486u},
{252432504898094u,254647239526623u,14630898284664u,16845632913193u},
{252432504898094u,4296167184640660u,14630898284664u,4058365578027230u},
{371886991861941u,4296167184640660u,134085385248511u,4058365578027230u},
{252432504898094u,374101726490470u,14630898284664u,136300119877040u},
{252432504898094u,2215679968601718u,14630898284664u,4355894428122583u},
{1234056236749906u,758453023523047u,1471857843363335u,996254630136476u},
{1234056236749906u,3627280955583248u,1471857843363335u,3865082562196677u},
{267641157597141u,282849810296188u,1471857843363335u,3865082562196677u},
{3857478235847154u,282849810296188u,2668470202780006u,3865082562196677u},
{3266776382488342u,4463388741905013u,2668470202780006u,3865082562196677u},
{1464253517013812u,4463388741905013u,1471857843363335u,4470993068254536u},
{1464253517013812u,4463388741905013u,1471857843363335u,4470993068254536u},
{725876200315297u,4463388741905013u,1471857843363335u,3717407098856974u},
{1464253517013812u,3740220077905545u,718271873965773u,4486201720953583u},
{1464253517013812u,364291868315563u,718271873965773u,4094200083555755u},
{1660254335712726u,168291049616649u,2406235978760764u,914272692664687u},
{1660254335712726u,168291049616649u,2406235978760764u,3996199674206298u},
{1464253517013812u,1954255563761097u,718271873965773u,1208273920713058u},
{3947199469531570u,2455236183435493u,3201217826483531u,1709254540387454u},
{3947199469531570u,2455236183435493u,3201217826483531u,1709254540387454u},
{4197689779368768u,462292277665020u,467781564128575u,1709254540387454u},
{1088518052258015u,2329991028516894u,467781564128575u,1709254540387454u},
{1088518052258015u,2329991028516894u,3884576892072270u,1709254540387454u},
{1088518052258015u,1396141653090957u,3884576892072270u,4192200492905212u},
{1088518052258015u,1242329852674486u,3884576892072270u,4038388692488741u},
{1088518052258015u,3961482792280506u,3884576892072270u,1165423952466250u},
{1088518052258015u,3961482792280506u,3884576892072270u,2525000422269260u},
{1088518052258015u,4269106393113448u,3884576892072270u,2678812222685731u},
{1088518052258015u,3281694557379001u,3884576892072270u,485635717564745u},
{1088518052258015u,2185106304818508u,3884576892072270u,485635717564745u},
{428635467001706u,979341635431969u,2897165056337823u,158106467086607u},
{3445459182618070u,979341635431969u,2897165056337823u,431047509151722u},
{1664106282744773u,2760694535305266u,2212400409025019u,3308988661585512u},
{3445459182618070u,979341635431969u,2212400409025019u,3720812266833201u},
{4199665111522161u,225135706527878u,2212400409025019u,2966606337929110u},
{4199665111522161u,225135706527878u,2212400409025019u,602238670979923u},
{3394584242499613u,225135706527878u,2212400409025019u,1407319540002471u},
{4199665111522161u,174260766409421u,3873437087188572u,1407319540002471u},
{4199665111522161u,627676141039152u,3420021712558841u,1407319540002471u},
{1634027227317337u,627676141039152u,2413670626280656u,1407319540002471u},
{1634027227317337u,2186962938965791u,4426372798837026u,500488790743009u},
{1634027227317337u,1910495083141564u,4426372798837026u,224020934918782u},
{1634027227317337u,1910495083141564u,1772261155229450u,2048729011053677u},
{1634027227317337u,3016366506438472u,942857587756769u,2325196866877904u},
{1634027227317337u,3514018760769579u,942857587756769u,445205333425662u},
{2574022994043458u,3514018760769579u,942857587756769u,445205333425662u},
{2574022994043458u,3514018760769579u,3044020877406518u,445205333425662u},
{30516191998695u,196379206260109u,500514075361755u,666377089623169u},
{3873430766033886u,196379206260109u,4343428649396946u,666377089623169u},
{3873430766033886u,624911336057816u,154913452694755u,1094909219420876u},
{113447699129402u,2504902869510058u,154913452694755u,237844959825462u},
{1309175284319730u,2504902869510058u,154913452694755u,3659164701135032u},
{1309175284319730u,1907039076914894u,154913452694755u,3659164701135032u},
{711311491724566u,3700630454700386u,154913452694755u,4257028493730196u},
{711311491724566u,2205970973212476u,154913452694755u,4257028493730196u},
{1458641232468521u,2205970973212476u,154913452694755u,3509698752986241u},
{4066096792016052u,3700630454700386u,2015039271498331u,1649572934182665u},
{4066096792016052u,3883363623358219u,2015039271498331u,1832306102840498u},
{1923672687169415u,3883363623358219u,3974730207687135u,1832306102840498u},
{2903518155263817u,761094050417180u,3974730207687135u,1832306102840498u},
{2903518155263817u,395627713101514u,852460634746096u,1649572934182665u},
{2903518155263817u,1251016784464381u,852460634746096u,1649572934182665u},
{2903518155263817u,2077267469864099u,26209949346378u,4128324990381819u},
{453904485027812u,308212555212067u,113625107235825u,794183862819798u},
{40779142327953u,308212555212067u,113625107235825u,381058520119939u},
{40779142327953u,587621191469869u,247341813677882u,381058520119939u},
{1693280513127389u,1413871876869587u,660467156377741u,381058520119939u},
{1693280513127389u,3619202908497783u,660467156377741u,2586389551748135u},
{590614997313291u,3619202908497783u,1623428354062938u,2586389551748135u},
{590614997313291u,2104908952905537u,3137722309655184u,1072095596155889u},
{4170535666404832u,3619202908497783u,109134398470692u,4372607628989628u},
{4170535666404832u,3619202908497783u,3894869287451307u,3343536529544258u},
{2002001842961000u,3619202908497783u,3894869287451307u,1726335464007475u},
{2002001842961000u,1413871876869587u,1211799914284790u,623669948193377u},
{917734931239084u,329604965147671u,127533002562874u,623669948193377u},
{375601475378126u,329604965147671u,127533002562874u,81536492332419u},
{375601475378126u,145618924225851u,219526023023784u,1615943839454383u},
{104534747447647u,145618924225851u,219526023023784u,1615943839454383u},
{104534747447647u,1480410475489144u,240068111412886u,1615943839454383u},
{104534747447647u,114805791642198u,240068111412886u,250339155607437u},
{917734931239084u,656939247503156u,240068111412886u,1334606067329353u},
{917734931239084u,787337089371120u,240068111412886u,109670269544922u},
{917734931239084u,3563203289609892u,240068111412886u,4240870109436089u},
{2273068570891479u,787337089371120u,3015934311651658u,1530202830131299u},
{2273068570891479u,3595802750076883u,3015934311651658u,207468650945895u},
{2934435660484181u,3595802750076883u,3015934311651658u,207468650945895u},
{288967302113373u,3595802750076883u,4338668490837062u,2852937009316703u},
{1942385026095128u,3595802750076883u,2685250766855307u,1199519285334948u},
{1942385026095128u,3595802750076883u,2769093888086005u,4422511612067760u},
{330888862728722u,3595802750076883u,1157597724719599u,4422511612067760u},
{3553881189461534u,2026228147325826u,1157597724719599u,4422511612067760u},
{3553881189461534u,2790054668393680u,1157597724719599u,4422511612067760u},
{3171967928927607u,2790054668393680u,1157597724719599u,775684464185672u},
{670880562647300u,2026228147325826u,2303337506321380u,393771203651745u},
{1348554354986563u,2026228147325826u,2981011298660643u,393771203651745u},
{1348554354986563u,54934307482114u,2981011298660643u,1687391251156194u},
{3935794449995461u,1410281892160640u,2241609969147303u,1687391251156194u},
{3935794449995461u,424634972238784u,701744331234338u,1687391251156194u},
{3935794449995461u,424634972238784u,701744331234338u,1194567791195266u},
{3935794449995461u,178223242258320u,701744331234338u,948156061214802u},
{2456493372252937u,178223242258320u,85299657353308u,24735097182867u},
{2333287507262705u,55017377268088u,85299657353308u,24735097182867u},
{2271684574767589u,55017377268088u,23696724858192u,24735097182867u},
{49825515644713u,55017377268088u,21619980208842u,26811841832217u},
{19024049397155u,24215911020530u,21619980208842u,26811841832217u},
{3623316273376u,8815177896751u,6219247085063u,11411108708438u},
{3623316273376u,39616644144309u,21619980208842u,57613308079775u},
{60121813018290u,39616644144309u,21619980208842u,1114811334861u},
{11367395771852u,39616644144309u,49869228581299u,1114811334861u},
{63993852767528u,39616644144309u,25492019958080u,1114811334861u},
{218001184005318u,116620309763204u,25492019958080u,309129473810441u},
{937347403073211u,116620309763204u,1129856567120448u,309129473810441u},
{3799639645221245u,4184657973315720u,3607130481174007u,3992148809268482u},
{3414621317126770u,1271675294046629u,2452075496890582u,4377167137362957u},
{3414621317126770u,1380602485350512u,2452075496890582u,4377167137362957u},
{3414621317126770u,2397611901238641u,1435066081002453u,4377167137362957u},
{581447452070149u,36811495550734u,853765430329856u,4377167137362957u},
{581447452070149u,3868662429418893u,72942744126084u,4377167137362957u},
{191036108968263u,3868662429418893u,699540816912327u,4377167137362957u},
{191036108968263u,2029849269193578u,2538353977137642u,4377167137362957u},
{581447452070149u,2029849269193578u,699540816912327u,3360157721474828u},
{2635956812913114u,2029849269193578u,699540816912327u,93433273192791u},
{2332903041053346u,2029849269193578u,699540816912327u,396487045052559u},
{2939010584772882u,1423741725474042u,699540816912327u,3663211493334596u},
{2181376155123462u,1423741725474042u,699540816912327u,3663211493334596u},
{2181376155123462u,1802558940298752u,699540816912327u,320723602087617u},
{2939010584772882u,1044924510649332u,1078358031737037u,2905577063685176u},
{164748515762968u,1991967547711107u,3852620100746951u,131314994675262u},
{604836513206150u,1991967547711107u,3852620100746951u,131314994675262u},
{604836513206150u,1991967547711107u,3852620100746951u,1298402030458628u},
{2939010584772882u,824880511927741u,1078358031737037u,2685533064963585u},
{3742598101386156u,21292995314467u,1881945548350311u,2685533064963585u},
{4144391859692793u,21292995314467u,1881945548350311u,2283739306656948u},
{2537216826466245u,21292995314467u,274770515123763u,2283739306656948u},
{1279254910890356u,21292995314467u,3541701222232837u,2283739306656948u},
{2912720264444893u,21292995314467u,650273953102411u,2283739306656948u},
{528248034933060u,1147803309250411u,1157228992721004u,4292708098190133u},
{1467006629879680u,209044714303791u,2095987587667624u,838025672091735u},
{1467006629879680u,209044714303791u,2095987587667624u,838025672091735u},
{1467006629879680u,209044714303791u,603336023355080u,838025672091735u},
{2959658194192224u,1701696278616335u,3588639151980168u,2330677236404279u},
{2959658194192224u,1701696278616335u,3588639151980168u,2330677236404279u},
{1093843738801544u,1701696278616335u,1722824696589488u,2330677236404279u},
{4217620109768113u,359220691147832u,68294420930343u,464862781013599u},
{160936511106204u,768789050920995u,3913693839860717u,464862781013599u},
{160936511106204u,768789050920995u,2189278310437158u,464862781013599u},
{4217620109768113u,1376641590735786u,2697988760231135u,2797130850251949u},
{1327070545725379u,4267191154778520u,2747559805241542u,2797130850251949u},
{1327070545725379u,4267191154778520u,4242405632273316u,2797130850251949u},
{1327070545725379u,3519768241262633u,4242405632273316u,604433154714695u},
{530076587199085u,2074493459241266u,1302285023220175u,654004199725102u},
{530076587199085u,978144611472639u,205936175451548u,654004199725102u},
{4043157142641743u,978144611472639u,205936175451548u,429970187588325u},
{3819123130504966u,978144611472639u,2398633870988802u,3719016730894206u},
{317953181519937u,978144611472639u,3058825300941504u,3719016730894206u},
{317953181519937u,648048896496288u,3058825300941504u,3388921015917855u},
{128517233476960u,117740382298418u,948368095328566u,277399814197322u},
{783320237840391u,117740382298418u,948368095328566u,282788239786593u},
{1605865312486633u,1935961027462984u,1770913169974808u,2101008884951159u},
{296259303759771u,117740382298418u,131211446271595u,282788239786593u},
{2352621990375376u,117740382298418u,2187574132887200u,282788239786593u},
{3215755476195003u,3545851191171354u,3380803333683178u,3710899048659529u},
{3215755476195003u,3545851191171354u,3380803333683178u,3710899048659529u},
{2885659761218652u,841508641805833u,2060420473777774u,3710899048659529u},
{1038344914071365u,841508641805833u,213105626630487u,3710899048659529u},
{1038344914071365u,2787241625085886u,114687490497721u,3710899048659529u},
{1038344914071365u,546254233407535u,114687490497721u,1469911656981178u},
{1038344914071365u,2639614420886737u,114687490497721u,1715956997313093u},
{1038344914071365u,1838979667479051u,114687490497721u,915322243905407u},
{2085025007810966u,792299573739450u,114687490497721u,2762637091052694u},
{2085025007810966u,1438662290775208u,114687490497721u,2762637091052694u},
{1761843649293087u,1438662290775208u,3085818449570573u,2762637091052694u},
{276278169756661u,1438662290775208u,3085818449570573u,1277071611516268u},
{2085025007810966u,2924227770311634u,437868849015600u,1277071611516268u},
{2504626389061300u,2924227770311634u,857470230265934u,1277071611516268u},
{2714427079686467u,2924227770311634u,857470230265934u,1067270920891101u},
{2085025007810966u,3134028460936801u,437868849015600u,1486872302141435u},
{962370575578518u,3134028460936801u,2609526734373883u,1486872302141435u},
{962370575578518u,401043359462294u,2609526734373883u,2048199518257659u},
{1523697791694742u,3134028460936801u,3732181166606331u,925545086025211u},
{1523697791694742u,120379751404182u,2328863126315771u,925545086025211u},
{3835687481082081u,822038771549462u,2328863126315771u,1627204106170491u},
{1172868281622102u,822038771549462u,2328863126315771u,1978033616243131u},
{1874527301767382u,120379751404182u,3030522146461051u,1276374596097851u},
{997453526585782u,3309443215973121u,3030522146461051u,2153448371279451u},
{997453526585782u,3309443215973121u,2591985258870251u,2153448371279451u},
{1074499970843u,120379751404182u,3469059034051851u,1276374596097851u},
{1216721970381182u,3528711659768521u,2372716815074851u,1276374596097851u},
{1216721970381182u,3528711659768521u,2372716815074851u,1824545705586351u},
{1216721970381182u,1336027221814521u,1157069344664512u,4136535394973690u},
{1216721970381182u,2706454995535771u,2646802369819101u,4136535394973690u},
{1216721970381182u,3391668882396396u,2646802369819101u,1961588482958476u},
{2304195426388789u,3391668882396396u,3734275825826708u,874115026950869u},
{1216721970381182u,933767652667539u,2646802369819101u,2363848052105458u},
{1216721970381182u,2505325210962280u,2646802369819101u,1075244811524360u},
{1216721970381182u,1861023590671731u,3291103990109650u,430943191233811u},
{2788279528675923u,2505325210962280u,2646802369819101u,2363848052105458u},
{2788279528675923u,753094001379086u,894571160235907u,611616842522264u},
{2788279528675923u,753094001379086u,18455555444310u,611616842522264u},
{1912163923884326u,4257556420545474u,894571160235907u,3239963656897055u},
{3084860172214900u,4257556420545474u,894571160235907u,2067267408566481u},
{3084860172214900u,3671208296380187u,1480919284401194u,2067267408566481u},
{1187745222318551u,3671208296380187u,1480919284401194u,2067267408566481u},
{739467675553752u,3671208296380187u,894571160235907u,3826311781062342u},
{4326591709245718u,3671208296380187u,239187747370376u,3170928368196811u},
{4326591709245718u,3671208296380187u,3998900002812952u,3343516589947421u},
{4326591709245718u,1049674644918063u,1549954573101438u,2688133177081890u},
{4326591709245718u,480585342927837u,2119043875091664u,2688133177081890u},
{4326591709245718u,196040691932724u,2119043875091664u,2403588526086777u},
{3757502407255492u,1049674644918063u,980865271111212u,2403588526086777u},
{1692226898598995u,1049674644918063u,4468864034743274u,2403588526086777u},
{1692226898598995u,3436226280415026u,4468864034743274u,2403588526086777u},
{1531588835178762u,3436226280415026u,498951080850513u,2403588526086777u},
{154904211816261u,4055759218289426u,498951080850513u,338313017430280u},
{579270112560630u,418632049140397u,498951080850513u,338313017430280u},
{2960066919105960u,418632049140397u,498951080850513u,2879747887395843u},
{900546239401096u,2799428855685727u,498951080850513u,2397833697135144u},
{900546239401096u,4150465322378625u,498951080850513u,1046797230442246u},
{225028006054647u,4150465322378625u,498951080850513u,4424388397174491u},
{2251582706093994u,4150465322378625u,3201024014236309u,1722315463788695u},
{1512228430870187u,4150465322378625u,3201024014236309u,2461669739012502u},
{2831346876624406u,4150465322378625u,3201024014236309u,1142551293258283u},
{2831346876624406u,482992070381174u,2171787653747296u,3490906099501515u},
{193109985115968u,4440347407643831u,1592023483216884u,3490906099501515u},
{193109985115968u,4440347407643831u,417846080095268u,3490906099501515u},
{193109985115968u,3853258706083023u,4077994801062323u,3490906099501515u},
{1367287388237584u,2679081302961407u,2179112184777692u,3490906099501515u},
{1367287388237584u,1211359549059387u,711390430875672u,3490906099501515u},
{633426511286574u,1211359549059387u,4224766976452525u,3490906099501515u},
{2835009142139604u,1945220426010397u,4224766976452525u,555462591697475u},
{1000356949762079u,110568233632872u,4224766976452525u,2390114784075000u},
{1000356949762079u,3307440880263763u,4224766976452525u,2390114784075000u},
{319246722635396u,3307440880263763u,4224766976452525u,2390114784075000u},
{2362577404015445u,110568233632872u,1236572818824158u,2390114784075000u},
{1785806421390024u,110568233632872u,1813343801449579u,2390114784075000u},
{1524958310136869u,2101729292762290u,1813343801449579u,2390114784075000u},
{948187327511448u,3832042240638553u,2074191912702734u,2390114784075000u},
{948187327511448u,3832042240638553u,2232153348388867u,2390114784075000u},
{948187327511448u,3832042240638553u,869206609668381u,3753061522795486u},
{2311134066231934u,1422071634569847u,3595100087109353u,1027168045354514u},
{2311134066231934u,3150568871278310u,187733240308138u,4434534892155729u},
{2311134066231934u,2730851468755122u,607450642831326u,4434534892155729u},
{2520992767493528u,2730851468755122u,817309344092920u,4434534892155729u},
{2101275364970340u,3150568871278310u,4014817489632541u,1237026746616108u},
{2101275364970340u,2625922118124325u,712379993462123u,1237026746616108u},
{4277140866209534u,2625922118124325u,712379993462123u,1237026746616108u},
{3752494113055549u,974703370039116u,2363598741547332u,2286320252924078u},
{1013342614350743u,974703370039116u,2363598741547332u,2324959497235705u},
{1013342614350743u,974703370039116u,2363598741547332u,955383747883302u},
{1013342614350743u,2344279119391519u,3771813735211362u,916744503571675u},
{1678810866871131u,2344279119391519u,4437281987731750u,251276251051287u},
{2011544993131325u,2344279119391519u,4437281987731750u,251276251051287u},
{1678810866871131u,3342481498172101u,3106345482690974u,251276251051287u},
{1678810866871131u,2510646182521616u,3106345482690974u,251276251051287u},
{1678810866871131u,2510646182521616u,1262893209045888u,2094728524696373u},
{1678810866871131u,757084730048588u,341167072223345u,2094728524696373u},
{1678810866871131u,4264207634994644u,2184619345868431u,1173002387873830u},
{1678810866871131u,4264207634994644u,386112482809374u,2971509250932887u},
{3870762682462416u,2072255819403359u,779557435341602u,2971509250932887u},
{1678810866871131u,273748956344302u,1397729440803975u,3364954203465115u},
{1678810866871131u,4067485158728530u,2381341822134545u,976279911607716u},
{1678810866871131u,4067485158728530u,2873148012799830u,976279911607716u},
{695198485540561u,4067485158728530u,2381341822134545u,1468086102273001u},
{238570625609789u,4067485158728530u,2381341822134545u,1924713962203773u},
{10256695644403u,4067485158728530u,2153027892169159u,1924713962203773u},
{4181642123711223u,4067485158728530u,2038870927186466u,1924713962203773u},
{352727590592482u,4067485158728530u,2495498787117238u,1924713962203773u},
{2210106374660506u,4067485158728530u,67335178135749u,1924713962203773u},
{3138795766694518u,4067485158728530u,996024570169761u,1924713962203773u},
{3138795766694518u,1639321549747041u,67335178135749u,1711833704410855u},
{3138795766694518u,1639321549747041u,67335178135749u,2389058658220779u},
{3138795766694518u,4299657506737033u,1228196918178264u,2389058658220779u},
{1494297240419412u,4299657506737033u,744560131945673u,3549920398263294u},
{647766048157007u,4299657506737033u,1397503156630745u,3549920398263294u},
{2473711777447020u,4299657506737033u,1397503156630745u,1723974668973281u},
{2473711777447020u,811001804328275u,1560738912802013u,3386684642092026u},
{647766048157007u,2636947533618288u,3223448885920758u,61264695854536u},
{4218039628651399u,2636947533618288u,3223448885920758u,1642356790887647u},
{4218039628651399u,851810743371092u,3223448885920758u,1642356790887647u},
{2228858143190118u,4422084323865484u,2815359495492588u,1642356790887647u},
{3325471233527801u,4422084323865484u,545743700549964u,1642356790887647u},
{3325471233527801u,2190663336056489u,2777164688358959u,1642356790887647u},
{2228858143190118u,3287276426394172u,545743700549964u,1604161983754018u},
{2228858143190118u,2758067284792145u,4441181727432298u,1074952842151991u},
{810348271350978u,2758067284792145u,4441181727432298u,1074952842151991u},
{810348271350978u,2758067284792145u,1784207778071561u,1074952842151991u},
{4176577156631285u,101093335431408u,4441181727432298u,365697906232421u},
{1874230675230333u,101093335431408u,4441181727432298u,365697906232421u},
{723057434529857u,101093335431408u,4441181727432298u,365697906232421u},
{723057434529857u,1252266576131884u,987662005330870u,1516871146932897u},
{3600990536281047u,1252266576131884u,3865595107082060u,1516871146932897u},
{3600990536281047u,1252266576131884u,3865595107082060u,77904596057302u},
{3071781394679020u,2691233127007479u,987662005330870u,4394804248684087u},
{1177936139166641u,2691233127007479u,987662005330870u,2500958993171708u},
{40739377574681u,2691233127007479u,987662005330870u,3638155754763668u},
{40739377574681u,1365986252291080u,2312908880047269u,3638155754763668u},
{989886026042202u,797387871495100u,4206754135559648u,38515356863349u},
{893636948768651u,797387871495100u,4206754135559648u,134764434136900u},
{1508135847490075u,2833382722206474u,845512410131875u,2170759284848274u},
{182888972773676u,2122634746211499u,1556260386126850u,3496006159564673u},
{182888972773676u,2122634746211499u,1556260386126850u,3496006159564673u},
{182888972773676u,951012596175456u,384638236090807u,3496006159564673u},
{1354511122809719u,4465879046283585u,2727882536162893u,3092507632930410u},
{1354511122809719u,2910195084546652u,4283566497899826u,1536823671193477u},
{1354511122809719u,2910195084546652u,4283566497899826u,2132353103678185u},
{3207959800789006u,1056746406567365u,278904425698898u,2132353103678185u},
{1950040555294427u,2612430368304298u,874433858183606u,1536823671193477u},
{1205628764688542u,2612430368304298u,2281235461799362u,130022067577721u},
{1205628764688542u,1909029566496420u,2281235461799362u,130022067577721u},
{1328661731082563u,420205985284650u,2281235461799362u,2984636263607240u},
{976961330178624u,68505584380711u,2632935862703301u,2984636263607240u},
{2457085662251332u,2808786063155271u,2632935862703301u,2984636263607240u},
{53592342999890u,68505584380711u,229442543451859u,244355784832680u},
{2347101569565904u,68505584380711u,2522951770017873u,244355784832680u},
{4197256984656789u,68505584380711u,4373107185108758u,244355784832680u},
{4197256984656789u,22678879095116u,4373107185108758u,198529079547085u},
{3493856182848911u,374379279999055u,4373107185108758u,1253630282258902u},
{1934117731423983u,374379279999055u,4373107185108758u,2813368733683830u},
{1934117731423983u,1154248505711519u,4373107185108758u,3593237959396294u},
{3493856182848911u,3692619735943678u,3394474406301527u,3593237959396294u},
{1544183118567751u,3692619735943678u,1444801342020367u,3593237959396294u},
{1544183118567751u,569346586427171u,469964809879787u,3593237959396294u},
{1544183118567751u,2717783203803098u,3394474406301527u,867491916069321u},
{1544183118567751u,2717783203803098u,957383075950077u,2130983161185424u},
{1544183118567751u,325637453392026u,957383075950077u,3349528826361149u},
{1544183118567751u,3958801658949012u,2153455951155613u,934910285979888u},
{2762728783743476u,303164663421837u,2175928741125802u,3349528826361149u},
{946146680964983u,303164663421837u,359346638347309u,3349528826361149u},
{946146680964983u,4257819877750396u,37855629575736u,3349528826361149u},
{318765504203099u,4257819877750396u,37855629575736u,3976910003123033u},
{198601133961523u,4257819877750396u,4418565382136182u,4097074373364609u},
{198601133961523u,2067465001470173u,4418565382136182u,1906719497084386u},
{520092142733096u,1424482983927027u,2228210505855959u,620755461998094u},
{520092142733096u,1424482983927027u,2228210505855959u,972287563330061u},
{520092142733096u,796521512664078u,1600249034593010u,972287563330061u},
{1914229770224485u,1286268298961536u,1600249034593010u,972287563330061u},
{4426075655276281u,1286268298961536u,2856171977118908u,2366425190821450u},
{1531141692110265u,1286268298961536u,2856171977118908u,2611298583970179u},
{83674710527257u,1286268298961536u,1408704995535900u,1163831602387171u},
{1063168283122173u,1286268298961536u,450984800250350u,674084816089713u},
{339434792330669u,562534808170032u,450984800250350u,674084816089713u},
{339434792330669u,200668062774280u,89118054854598u,312218070693961u},
{170768219764721u,200668062774280u,4784768571624u,34684611581183u},
{170768219764721u,19734690076404u,4784768571624u,34684611581183u},
{80301533415783u,19734690076404u,4784768571624u,34684611581183u},
{35068190241314u,19734690076404u,4784768571624u,34684611581183u},
{216001562939190u,19734690076404u,4784768571624u,34684611581183u},
{117868126507797u,19734690076404u,4784768571624u,132818048012576u},
{181884766228273u,19734690076404u,68801408292100u,132818048012576u},
{1086551629717653u,19734690076404u,521134840036790u,585151479757266u},
{1118559949577891u,19734690076404u,553143159897028u,585151479757266u},
{3730530146285u,19734690076404u,569147319827147u,585151479757266u},
{2265397688869735u,1150568269438129u,553143159897028u,3977652217842441u},
{1707982979153932u,1150568269438129u,553143159897028u,3977652217842441u},
{4256359572700343u,1150568269438129u,1429275624296030u,3977652217842441u},
{513132760071731u,3221550952919332u,234425405213829u,2942843598061430u},
{2703463921069236u,2146049211353433u,2982171275927137u,2424756566211334u},
{2703463921069236u,2146049211353433u,2982171275927137u,2424756566211334u},
{901698033959303u,3947815098463366u,1180405388817204u,622990679101401u},
{214761566280976u,2146049211353433u,1180405388817204u,752512437063925u},
{214761566280976u,3325639509766301u,815090404336u,4291283332302529u},
{214761566280976u,3915434658972735u,815090404336u,4291283332302529u},
{214761566280976u,434477404340317u,104903647251305u,324619485310646u},
{214761566280976u,139579829737100u,104903647251305u,29721910707429u},
{214761566280976u,177170698009038u,67312778979367u,29721910707429u},
{214761566280976u,26807224921286u,67312778979367u,174256012222894u},
{214761566280976u,120784395601131u,67312778979367u,268233182902739u},
{214761566280976u,20324193639445u,67312778979367u,167772980941053u},
{214761566280976u,2034377114881121u,67312778979367u,1886928327579512u},
{1394351864693844u,1444581965674687u,657107928185801u,707338029166644u},
{2156710851692308u,682222978676223u,2893954788200350u,1419466915184265u},
{2156710851692308u,682222978676223u,2893954788200350u,1419466915184265u},
{301043485176991u,2537890345191540u,3987263167717203u,1419466915184265u},
{3821788471458009u,2537890345191540u,2703365041450734u,1419466915184265u},
{3821788471458009u,777517852051031u,2703365041450734u,1419466915184265u},
{1584941611443460u,1253992218925071u,4463737534591243u,1419466915184265u},
{62806301739971u,1253992218925071u,2941602224887754u,1419466915184265u},
{3702669879739499u,2180534570036010u,2941602224887754u,1419466915184265u},
{360602781036246u,2180534570036010u,2941602224887754u,1419466915184265u},
{360602781036246u,2478331049332285u,4165941055294968u,1419466915184265u},
{360602781036246u,46229845128914u,1733839851091597u,3851568119387636u},
{360602781036246u,2635517517285951u,1576653383137931u,3851568119387636u},
{674975716943578u,2478331049332285u,1576653383137931u,790721043369601u},
{282009547059413u,2478331049332285u,1576653383137931u,3772974885410803u},
{282009547059413u,1380170298195849u,2674814134274367u,3772974885410803u},
{2871297219216450u,987204128311684u,1969619553022096u,3772974885410803u},
{2871297219216450u,1929250673764067u,1027573007569713u,3772974885410803u},
{4243998158136995u,556549734843522u,2400273946490258u,3772974885410803u},
{1713923477029986u,556549734843522u,2400273946490258u,1242900204303794u},
{125895341375360u,2359905067232229u,2400273946490258u,1242900204303794u},
{125895341375360u,2359905067232229u,2400273946490258u,1821587075397026u},
{125895341375360u,2070561631685613u,2400273946490258u,2110930510943642u},
{125895341375360u,11549984341681u,38396302118891u,213394380631828u},
{125895341375360u,11549984341681u,38396302118891u,68722662858520u},
{53559482488706u,11549984341681u,38396302118891u,68722662858520u},
{198231200262014u,11549984341681u,110732161005545u,285730239518482u},
{17391553045379u,11549984341681u,110732161005545u,104890592301847u},
{17391553045379u,14470768693530u,107811376653696u,104890592301847u},
{17391553045379u,1553068162210852u,107811376653696u,1462648338602534u},
{17391553045379u,468030278911042u,469490671086966u,15931160869454u},
{4311602978352498u,3407404742269323u,3859503860310910u,2955305624227735u},
{4311602978352498u,3407404742269323u,3859503860310910u,2955305624227735u},
{1712398147657351u,3407404742269323u,2277887143253316u,1146909152061385u},
{2559901444963337u,3407404742269323u,1430383845947330u,299405854755399u},
{2983653093616330u,3407404742269323u,4396645386518281u,299405854755399u},
{2983653093616330u,1852675102424399u,3549142089212295u,299405854755399u},
{2983653093616330u,1358784976387882u,1924273971983847u,4043032215248812u},
{2983653093616330u,2171219035002106u,1111839913369623u,4043032215248812u},
{2983653093616330u,2577436064309218u,1111839913369623u,705622884062511u},
{2983653093616330u,952567947080770u,1111839913369623u,2824381127327476u},
{2983653093616330u,1968110520348550u,1111839913369623u,96297340101843u},
{2983653093616330u,2475881806982440u,1111839913369623u,604068626735733u},
{2983653093616330u,444796660446880u,1111839913369623u,2316609840693586u},
{2983653093616330u,1714224877031605u,1111839913369623u,3586038057278311u},
{2983653093616330u,4220752165570674u,1111839913369623u,2348938985323967u},
{509454949707642u,4188423020940293u,1176498202630385u,2348938985323967u},
{509454949707642u,3602202629593502u,1762718593977176u,2348938985323967u},
{2055828789650572u,3602202629593502u,802565145381037u,2348938985323967u},
{2829015709622037u,3602202629593502u,802565145381037u,1575752065352502u},
{1282641869679107u,322488421082968u,802565145381037u,3708346296642223u},
{3695685893905839u,322488421082968u,3215609169607769u,2255455721011630u},
{3695685893905839u,322488421082968u,3215609169607769u,4422131181721135u},
{1282641869679107u,1529010433196334u,4175762618203908u,4422131181721135u},
{1282641869679107u,1529010433196334u,1405826151437720u,4422131181721135u},
{2913978666579428u,1529010433196334u,1405826151437720u,4422131181721135u},
{4298946899962522u,1775378996713561u,1159457587920493u,3037162948338041u},
{4298946899962522u,836526316504787u,2098310268129267u,3037162948338041u},
{4298946899962522u,367099976400400u,2098310268129267u,2567736608233654u},
{2333023438181461u,367099976400400u,132386806348206u,2567736608233654u},
{455318077763913u,367099976400400u,1628883928024880u,1540665826661367u},
{455318077763913u,367099976400400u,411209027082156u,322990925718643u},
{455318077763913u,367099976400400u,411209027082156u,322990925718643u},
{1064155528235275u,1584774877343124u,2846558828967604u,322990925718643u},
{1064155528235275u,62681251164719u,4368652455146009u,322990925718643u},
{563418389699997u,62681251164719u,4368652455146009u,823728064253921u},
{2586249154413680u,3106868503521529u,2846558828967604u,3367178178075453u},
{813786958967636u,3106868503521529u,1074096633521560u,3367178178075453u},
{813786958967636u,3993099601244551u,187865535798538u,2480947080352431u},
{4436215150106062u,3993099601244551u,187865535798538u,2037831531490920u},
{370671410106125u,315074862476304u,398469683921035u,342873136291214u},
{370671410106125u,564430910721970u,149113635675369u,342873136291214u},
{370671410106125u,2461571130290847u,149113635675369u,4455591100167646u},
{2143133605552169u,2461571130290847u,1035344733398391u,1353782258137069u},
{2302352367921508u,86774623613953u,1194563495767730u,1353782258137069u},
{2302352367921508u,3489750621259955u,1194563495767730u,2381961749106177u},
{1114954114583061u,1274172876952400u,1194563495767730u,1353782258137069u},
{4003840366744509u,1274172876952400u,1194563495767730u,4083449747929178u},
{4003840366744509u,1274172876952400u,1194563495767730u,2639006621848454u},
{3844621604375170u,2718616003033124u,1194563495767730u,4242668510298517u},
{3281618803704147u,2718616003033124u,1194563495767730u,631560695096707u},
{3281618803704147u,913062095432219u,1194563495767730u,3000117403368635u},
{291786541967278u,2097340449568183u,1194563495767730u,3000117403368635u},
{291786541967278u,3961167109963006u,573287942302789u,10285141631766u},
{291786541967278u,2126476825965142u,573287942302789u,10285141631766u},
{291786541967278u,1209131683966210u,1490633084301721u,10285141631766u},
{854789342638301u,2126476825965142u,1490633084301721u,2762320567628562u},
{854789342638301u,3148152197635631u,1490633084301721u,468957712631232u},
{2001470770136966u,3148152197635631u,1490633084301721u,468957712631232u},
{854789342638301u,979795398466477u,3658989883470875u,3783995939299051u},
{917292370552389u,979795398466477u,3658989883470875u,3721492911384963u},
{948543884509433u,979795398466477u,3658989883470875u,3690241397427919u},
{948543884509433u,964169641487955u,3674615640449397u,3690241397427919u},
{948543884509433u,1026672669402043u,3674615640449397u,3752744425342007u},
{948543884509433u,987608276955738u,3674615640449397u,3713680032895702u},
{948543884509433u,3694147836672550u,3674615640449397u,968076080732585u},
{3655083444226245u,1065737061848348u,772754118501060u,968076080732585u},
{3655083444226245u,1065737061848348u,772754118501060u,968076080732585u},
{271908994580230u,1664243166884941u,4351250530378600u,968076080732585u},
{3655083444226245u,3056577339189652u,174248013464467u,3544882244768464u},
{3655083444226245u,3056577339189652u,174248013464467u,3355830391707948u},
{3655083444226245u,1166533097549615u,1465786150067911u,3355830391707948u},
{520764029247893u,2410808270887930u,1465786150067911u,3355830391707948u},
{520764029247893u,4348115475793096u,820017081766189u,221510976729596u},
{520764029247893u,2733692805038791u,3032945857557087u,221510976729596u},
{520764029247893u,1627228417143342u,3032945857557087u,4139410245452536u},
{2225734522179935u,1627228417143342u,1926481469661638u,1327975364625045u},
{2225734522179935u,1627228417143342u,1926481469661638u,1327975364625045u},
{393774458533179u,1627228417143342u,1926481469661638u,94521406014882u},
{3459188480790098u,2860682375753505u,3758441533308394u,3159935428271801u},
{3459188480790098u,2860682375753505u,375553584264690u,3159935428271801u},
{3459188480790098u,1169238401231653u,1468491453749949u,3159935428271801u},
{4304910468051024u,323516413970727u,2314213441010875u,3159935428271801u},
{2613466493529172u,1169238401231653u,1221275571525616u,4005657415532727u},
{2613466493529172u,1169238401231653u,1891352447380412u,4005657415532727u},
{834199963304255u,2948504931456570u,112085917155495u,2226390885307810u},
{499161525376857u,3283543369383968u,1891352447380412u,782162793010291u},
{499161525376857u,1336757620195352u,1891352447380412u,3838138196569028u},
{499161525376857u,363364745601044u,2864745321974720u,3838138196569028u},
{3419340149159781u,363364745601044u,1891352447380412u,3702341416793215u},
{3419340149159781u,363364745601044u,1891352447380412u,4324834633866182u},
{3419340149159781u,363364745601044u,3108093540623297u,4324834633866182u},
{3716464087244740u,363364745601044u,3108093540623297u,4324834633866182u},
{1282981900758970u,1580105838843929u,4027710695781223u,4324834633866182u},
{1282981900758970u,4473396602908662u,1134419931716490u,4324834633866182u},
{1282981900758970u,2878189251833816u,2729627282791336u,4324834633866182u},
{985857962674011u,4473396602908662u,2729627282791336u,1728667807886408u},
{485378225221547u,4473396602908662u,2729627282791336u,2229147545338872u},
{235138356495315u,4473396602908662u,2729627282791336u,2479387414065104u},
{235138356495315u,3722676996729966u,3230107020243800u,1978907676612640u},
{235138356495315u,4348276668545546u,2604507348428220u,1978907676612640u},
{235138356495315u,4348276668545546u,2604507348428220u,2291707512520430u},
{235138356495315u,78738438541420u,2604507348428220u,2448107430474325u},
{547938192403105u,4035476832637756u,3073707102289905u,2291707512520430u},
{2682707307405168u,1900707717635693u,938937987287842u,156938397518367u},
{2682707307405168u,1224322955019399u,3750091864906199u,156938397518367u},
{547938192403105u,3359092070021462u,3073707102289905u,833323160134661u},
{4479284041099084u,3359092070021462u,1953515131212283u,833323160134661u},
{4479284041099084u,3919188055560273u,1953515131212283u,1393419145673472u},
{537264242478803u,30538006561502u,230531374898642u,3644477037753018u},
{537264242478803u,3924525030522424u,257216249709397u,3644477037753018u},
{830654672653586u,270558687114775u,1110702665422991u,550606679884180u},
{830654672653586u,270558687114775u,1110702665422991u,550606679884180u},
{1390750658192397u,2937685837126816u,4337925800973843u,1537445873279788u},
{1390750658192397u,2937685837126816u,2164218247659606u,3711153426594025u},
{1390750658192397u,1077364471002488u,2164218247659606u,4024539613783934u},
{783974040827705u,1077364471002488u,2790990622039424u,1224059686089879u},
{783974040827705u,147203787940324u,1860829938977260u,293899003027715u},
{318893699296623u,147203787940324u,1860829938977260u,293899003027715u},
{318893699296623u,147203787940324u,1395749597446178u,1224059686089879u},
{318893699296623u,147203787940324u,233048743618473u,61358832262174u},
{814399170532326u,147203787940324u,233048743618473u,728554214854176u},
{480801479236325u,147203787940324u,1062151906150177u,728554214854176u},
{1643502333064030u,1309904641768029u,71140963678771u,4216656776337291u},
{4383455621985292u,1309904641768029u,1476703487416029u,4216656776337291u},
{4383455621985292u,1309904641768029u,1476703487416029u,2846680131876660u},
{4383455621985292u,2346283594932659u,3180277823172661u,1143105796120028u},
{2161691809646345u,124519782593712u,958514010833714u,1143105796120028u},
{2161691809646345u,32223889950555u,1050809903476871u,1143105796120028u},
{4198863836698978u,2253987702289502u,1050809903476871u,3457165501102132u},
{3226425769494240u,2253987702289502u,1050809903476871u,4429603568306870u},
{3226425769494240u,2740206735891871u,1050809903476871u,4429603568306870u},
{1293919420278056u,2740206735891871u,1050809903476871u,4429603568306870u},
{1293919420278056u,795330601482395u,576960655067794u,78371836272133u},
{327666245669964u,3694090125306671u,576960655067794u,78371836272133u},
{327666245669964u,3694090125306671u,93834067763748u,78371836272133u},
{327666245669964u,2244710363394533u,576960655067794u,78371836272133u},
{327666245669964u,1036893895134418u,576960655067794u,78371836272133u},
{327666245669964u,682280070402191u,931574479800021u,78371836272133u},
{1535482713930079u,3452526831654648u,576960655067794u,2494004772792363u},
{1535482713930079u,3524514328686365u,576960655067794u,504973158036077u},
{2529998521308222u,3524514328686365u,3560508077202223u,504973158036077u},
{1607470210961796u,3524514328686365u,2565992269824080u,4483036387548649u},
{79702751378723u,3524514328686365u,1038224810241007u,2955268927965576u},
{274341080449471u,3524514328686365u,4288398058477901u,2760630598894828u},
{274341080449471u,1899427704567918u,4288398058477901u,1135543974776381u},
{3427195164150991u,3524514328686365u,1991378928198477u,94372337870178u},
{3475854746418678u,3524514328686365u,1991378928198477u,45712755602491u},
{3475854746418678u,3524514328686365u,3451524955284834u,3500184537552521u},
{3329875999615617u,3573173910954052u,3451524955284834u,3694822866623269u},
{1310682615034480u,1553980526372915u,3451524955284834u,1675629482042132u},
{2441928262994266u,1553980526372915u,3451524955284834u,544383834082346u},
{1310682615034480u,2685226174332701u,3451524955284834u,544383834082346u},
{1310682615034480u,1231655613731457u,3451524955284834u,1997954394683590u},
{583897334733858u,504870333430835u,2724739674984212u,1997954394683590u},
{220504694583547u,504870333430835u,2361347034833901u,1997954394683590u},
{947289974884169u,4138796734933945u,3451524955284834u,1634561754533279u},
{2543043354909057u,726080154157502u,3451524955284834u,1634561754533279u},
{2543043354909057u,726080154157502u,3451524955284834u,1634561754533279u},
{4360006555660612u,4138796734933945u,38808374508391u,4249401645297278u},
{2144105009902835u,1922895189176168u,38808374508391u,4249401645297278u},
{2144105009902835u,3141450872418390u,1036154237023946u,4249401645297278u},
{2144105009902835u,483129685207279u,1036154237023946u,1591080458086167u},
{2144105009902835u,1313617347555057u,1036154237023946u,205666574676168u},
{2144105009902835u,1728861178728946u,1036154237023946u,620910405850057u},
{2144105009902835u,3044433867194779u,1036154237023946u,4152384640073667u},
{2144105009902835u,2213946204847001u,1036154237023946u,1105995431968112u},
{2144105009902835u,2179025607374918u,1036154237023946u,1071074834496029u},
{2144105009902835u,3269516081517765u,1036154237023946u,4377466854396653u},
{2144105009902835u,1123455730704154u,1036154237023946u,15504957825265u},
{2144105009902835u,525829597424606u,1036154237023946u,1633780370303494u},
{2144105009902835u,227016530784832u,1036154237023946u,3550868849421497u},
{1845291943263061u,227016530784832u,1036154237023946u,4148494982701045u},
{4210600022340725u,227016530784832u,3401462316101610u,1783186903623381u},
{4210600022340725u,227016530784832u,3401462316101610u,600532864084549u},
{3619273002571309u,227016530784832u,3401462316101610u,3992789335871026u},
{3027945982801893u,1409670570323664u,2218808276562778u,600532864084549u},
{1549628433378353u,1409670570323664u,3697125825986318u,600532864084549u},
{1549628433378353u,670511795611894u,3697125825986318u,4436284600698088u},
{3027945982801893u,2887988119747204u,2957967051274548u,2818009188219859u},
{1180049046022468u,1040091182967779u,2957967051274548u,970112251440434u},
{2034018582884836u,3881915519664261u,2957967051274548u,116142714578066u},
{1180049046022468u,1894060719830147u,2957967051274548u,116142714578066u},
{1180049046022468u,1894060719830147u,2957967051274548u,1537054882926307u},
{3668423135448669u,2247510967100428u,2957967051274548u,1537054882926307u},
{292867838213207u,2247510967100428u,2957967051274548u,1537054882926307u},
{1713780006561448u,826598798752187u,4378879219622789u,3491698011813528u},
{1713780006561448u,3935288615718159u,1270189402656817u,3491698011813528u},
{159435098078462u,3935288615718159u,1270189402656817u,3491698011813528u},
{3268124915044434u,826598798752187u,603025701983092u,3491698011813528u},
{3268124915044434u,826598798752187u,2047361856898310u,3491698011813528u},
{104430721294578u,826598798752187u,2047361856898310u,2769529934355919u},
{3990292992502043u,1548766876209796u,1600215663360121u,2769529934355919u},
{3990292992502043u,1548766876209796u,2184872798858020u,2769529934355919u},
{3990292992502043u,35675250314723u,1256438308460846u,2769529934355919u},
{499892495513310u,2012984121408383u,1256438308460846u,2769529934355919u},
{843669850412585u,35675250314723u,87124037465048u,792221063262259u},
{439672550363654u,35675250314723u,1196218363311190u,792221063262259u},
{2507311339181798u,4020402965076871u,1750765526234261u,3263857152129334u},
{3465855802153800u,3061858502104869u,3667854452178265u,3263857152129334u},
{1473491944772726u,1069494644723795u,1675490594797191u,3263857152129334u},
{477310016082189u,73312716033258u,4260039080819871u,3263857152129334u},
{477310016082189u,449687373218608u,491121337513979u,463498694650398u},
{477310016082189u,961589658995667u,975400980427457u,463498694650398u},
{477310016082189u,719449837538928u,975400980427457u,221358873193659u},
{477310016082189u,4085016677227438u,975400980427457u,1594561855501095u},
{477310016082189u,1096470891155827u,2967764837808531u,3586925712882169u},
{786890453619008u,1096470891155827u,3277345275345350u,3586925712882169u},
{786890453619008u,1096470891155827u,632100234850598u,941680672387417u},
{1602275511756427u,140106935681789u,1757065730524836u,294897154450198u},
{2109512973866384u,2419093411403203u,1954722755097974u,2264303192634793u},
{2109512973866384u,2419093411403203u,1954722755097974u,2264303192634793u},
{3051349187153953u,140106935681789u,3206139405922362u,294897154450198u},
{3762791124175604u,4072371561712423u,3608000905407194u,3917581342944013u},
{3762791124175604u,4072371561712423u,3608000905407194u,3917581342944013u},
{1696193436289079u,2005773873825898u,1541403217520669u,1850983655057488u},
{3453210686638785u,248756623476192u,303081467373393u,1850983655057488u},
{3453210686638785u,248756623476192u,662894592345816u,1850983655057488u},
{3453210686638785u,248756623476192u,662894592345816u,1256939123701652u},
{1671077092571277u,1436845686187864u,68850060989980u,3039072717769160u},
{3156188420960867u,1436845686187864u,68850060989980u,1553961389379570u},
{3156188420960867u,694290021993069u,68850060989980u,811405725184775u},
{3156188420960867u,2921957014577454u,3273304124152573u,3039072717769160u},
{3156188420960867u,1182683557282173u,1299799260473879u,3039072717769160u},
{2169435989121520u,1182683557282173u,313046828634532u,4025825149608507u},
{2169435989121520u,1182683557282173u,1676059773201846u,4025825149608507u},
{806423044554206u,1182683557282173u,3649564636880540u,4025825149608507u},
{3837694893244524u,1182683557282173u,994553300918189u,4025825149608507u},
{2322058968899365u,1182683557282173u,2510189225263348u,4025825149608507u},
{53902019098272u,4213955405972491u,994553300918189u,597105041323640u},
{53902019098272u,4213955405972491u,424865595109593u,597105041323640u},
{53902019098272u,4213955405972491u,424865595109593u,140021742205295u},
{1193277430715464u,4213955405972491u,1279397153822487u,4300075129079514u},
{481167798454719u,4213955405972491u,567287521561742u,4300075129079514u},
{923342337692115u,211232705431370u,567287521561742u,3857900589842118u},
{923342337692115u,211232705431370u,2924703687962675u,2212594055701930u},
{923342337692115u,1856539239571558u,3636813320223420u,76265158919695u},
{4103411771163142u,1856539239571558u,3636813320223420u,1389940788631836u},
{4103411771163142u,2979975505367350u,2513377054427628u,1389940788631836u},
{923342337692115u,733102973775766u,3636813320223420u,3446573956307071u},
{923342337692115u,3541693638265246u,3636813320223420u,828222655733940u},
{923342337692115u,3541693638265246u,2232517987978680u,828222655733940u},
{2517877033853204u,3541693638265246u,1018462019650289u,2042278624062331u},
{3029785336059225u,3541693638265246u,1018462019650289u,1530370321856310u},
{1274416170753300u,3541693638265246u,3285739487162235u,1530370321856310u},
{2005968731647183u,30955307653396u,3285739487162235u,1310726063168448u},
{872329997891210u,30955307653396u,4419378220918208u,177087329412475u},
{3852558854040222u,30955307653396u,4419378220918208u,597774674531382u},
{3852558854040222u,808118347090836u,4419378220918208u,241298980212849u},
{1228805692209743u,3075395814602782u,2152100753406262u,241298980212849u},
{1196699866809556u,3075395814602782u,2152100753406262u,241298980212849u},
{1196699866809556u,2136047840706169u,3091448727302875u,241298980212849u},
{1196699866809556u,193140242112569u,273404805613036u,2119994928006075u},
{1196699866809556u,193140242112569u,273404805613036u,694920054461062u},
{1196699866809556u,1407457491233569u,484162430037049u,694920054461062u},
{2621774740354569u,1828972740081595u,1698479679158049u,3545069801551088u},
{2621774740354569u,2225373740218082u,1698479679158049u,1302078679021562u},
{3743270301619332u,1103878178953319u,576984117893286u,180583117756799u},
{3743270301619332u,741330898389181u,3182522520986950u,4304018082251713u},
{1500279179089806u,4105817582183470u,1698479679158049u,4304018082251713u},
{1500279179089806u,2803048380636638u,3001248880704881u,4304018082251713u},
{2151663779863222u,2803048380636638u,650694078248146u,4304018082251713u},
{1500279179089806u,1755262779726735u,3001248880704881u,3256232481341810u},
{1500279179089806u,3128740681023346u,3001248880704881u,1627770979408270u},
{2314509930056576u,3128740681023346u,3815479631671651u,813540228441500u},
{2314509930056576u,941032028759965u,3001248880704881u,1627770979408270u},
{2314509930056576u,941032028759965u,3001248880704881u,1627770979408270u},
{609982540699808u,941032028759965u,1296721491348113u,1627770979408270u},
{609982540699808u,88768334081581u,444457796669729u,775507284729886u},
{4019037319413344u,88768334081581u,3853512575383265u,4184562063443422u},
{1888378082717384u,88768334081581u,1722853338687305u,2053902826747462u},
{823048464369404u,88768334081581u,657523720339325u,988573208399482u},
{823048464369404u,4350086807473501u,1722853338687305u,3450281933155599u},
{823048464369404u,1686762761603551u,1722853338687305u,2586567635921452u},
{823048464369404u,355100738668576u,391191315752330u,1254905612986477u},
{2154710487304379u,4350086807473501u,4386177384557255u,2118619910220624u},
{2154710487304379u,3252398647388940u,4386177384557255u,1020931750136063u},
{2154710487304379u,472087670093783u,1605866407262098u,2703554567346659u},
{2154710487304379u,4093710055994238u,1605866407262098u,764554998656800u},
{2996021895909677u,4093710055994238u,3544865975951957u,435997093010028u},
{2996021895909677u,4093710055994238u,3544865975951957u,343899294354151u},
{1395538555110774u,4093710055994238u,3544865975951957u,1944382635153054u},
{297850395026213u,2585324513851212u,754596676412616u,3042070795237615u},
{297850395026213u,3842312465637067u,1098092065425664u,3042070795237615u},
{2070081430331640u,469598089532737u,1269839759932188u,3042070795237615u},
{2070081430331640u,641345784039261u,926344370919140u,3213818489744139u},
{2070081430331640u,641345784039261u,2784449253477829u,1355713607185450u},
{426661165906106u,641345784039261u,1141028989052295u,1355713607185450u},
{426661165906106u,641345784039261u,319318856839528u,534003474972683u},
{3713501694757174u,1463055916252028u,2784449253477829u,534003474972683u},
{3713501694757174u,2588278805504601u,1659226364225256u,534003474972683u},
{3713501694757174u,1096614919598970u,1659226364225256u,3150890250130887u},
{2980619701451058u,1096614919598970u,167562478319625u,2025667360878314u},
{2038617310525014u,1096614919598970u,167562478319625u,2025667360878314u},
{1567616115061992u,1096614919598970u,167562478319625u,2496668556341336u},
{206412327259724u,3844922394496905u,2967669751804358u,2496668556341336u},
{206412327259724u,3844922394496905u,2732169154072847u,2496668556341336u},
{2849919452938603u,2614418855207092u,2732169154072847u,2496668556341336u},
{2849919452938603u,2614418855207092u,2732169154072847u,2496668556341336u},
{703913798038875u,2378918257475581u,2967669751804358u,1790166763146803u},
{1541416027757228u,4393923475851489u,952664533428450u,1790166763146803u},
{533913418569274u,4393923475851489u,952664533428450u,1790166763146803u},
{533913418569274u,2378918257475581u,3975172360992312u,782664153958849u},
{533913418569274u,2378918257475581u,1456415838022427u,782664153958849u},
{197037576537485u,2378918257475581u,1456415838022427u,3638296518960523u},
{197037576537485u,1705166573412003u,1793291680054216u,3301420676928734u},
{197037576537485u,951102074974744u,2547356178491475u,3301420676928734u},
{197037576537485u,2924388427710105u,2547356178491475u,574069825756114u},
{197037576537485u,1560713002123795u,2547356178491475u,3911031604077785u},
{3533999354859156u,2924388427710105u,429616254467906u,2980716892356099u},
{3533999354859156u,2924388427710105u,429616254467906u,3229193891284630u},
{1524599609301743u,914988682152692u,1829405072876268u,3229193891284630u},
{373287789821912u,4324177246118467u,68482326247386u,4019371782543941u},
{824705200097562u,215094272948511u,519899736523036u,4019371782543941u},
{2879246686682540u,215094272948511u,519899736523036u,2574441223108014u},
{598996494959737u,1660024832384438u,3184052150257065u,135997514511810u},
{598996494959737u,632754089091949u,4211322893549554u,135997514511810u},
{3697687521903310u,632754089091949u,4211322893549554u,119118717445704u},
{3697687521903310u,624314690558896u,110679318912651u,1137950062205140u},
{1643146035318332u,632754089091949u,4211322893549554u,1137950062205140u},
{106459619646125u,632754089091949u,2674636477877347u,1137950062205140u},
{3442979685713451u,1906293270041244u,2674636477877347u,1137950062205140u},
{3179832450990539u,369606854369037u,4211322893549554u,1401097296928052u},
{1774719652679788u,369606854369037u,4211322893549554u,2806210095238803u},
{1774719652679788u,3508766494394179u,1072163253524412u,2806210095238803u},
{1116851565872508u,1356408984579957u,414295166717132u,653852585424581u},
{3344299472692359u,1939186674381608u,2641743073536983u,1236630275226232u},
{3344299472692359u,1939186674381608u,2641743073536983u,1236630275226232u},
{3344299472692359u,328490098943582u,4252439648975009u,1236630275226232u},
{1528019120127058u,3549883249819634u,1031046498098957u,37101254042756u},
{2538951184973346u,3549883249819634u,1031046498098957u,2041978562945245u},
{3044417217396490u,3549883249819634u,1031046498098957u,1536512530522101u},
{2538951184973346u,1545005940917145u,3035923807001446u,2041978562945245u},
{2538951184973346u,281340859859285u,778313481887385u,2041978562945245u},
{3170783725502276u,281340859859285u,778313481887385u,1410146022416315u},
{2538951184973346u,2176838481446075u,778313481887385u,3937476184532035u},
{2538951184973346u,597257130123750u,778313481887385u,2357894833209710u},
{2538951184973346u,1568104157548548u,778313481887385u,3328741860634508u},
{2538951184973346u,1205991454021277u,778313481887385u,2966629157107237u},
{2538951184973346u,3633109022583272u,778313481887385u,1872471319497311u},
{2538951184973346u,3086030103778309u,778313481887385u,1325392400692348u},
{1051852941289867u,3086030103778309u,2812490644375827u,1325392400692348u},
{897714428558457u,1598931860094830u,4299588888059306u,932451994618795u},
{897714428558457u,581843278850609u,3282500306815085u,932451994618795u},
{3791044597437196u,581843278850609u,3282500306815085u,73298988228498u},
{739778853704533u,581843278850609u,3282500306815085u,3124564731961161u},
{660811066277571u,581843278850609u,3282500306815085u,3203532519388123u},
{660811066277571u,621327172564090u,3243016413101604u,3203532519388123u},
{818746641131495u,621327172564090u,3282500306815085u,3085080838247680u},
{818746641131495u,621327172564090u,720036906847792u,522617438280387u},
{2001268606831439u,621327172564090u,720036906847792u,1902558872547736u},
{2592529589681411u,621327172564090u,3873761289665057u,1902558872547736u},
{1804846561116277u,226488235429280u,1311297889697764u,1902558872547736u},
{1509216069691291u,226488235429280u,1606928381122750u,1902558872547736u},
{1361400823978798u,78672989716787u,1606928381122750u,1754743626835243u},
{4169890492516165u,669933972566759u,1311297889697764u,2050374118260229u},
{941759775416532u,1680836003978997u,1311297889697764u,2050374118260229u},
{4403515705372511u,1680836003978997u,1311297889697764u,2050374118260229u},
{941759775416532u,1914461216835343u,1816748905403883u,2789450346822694u},
{941759775416532u,553121366138586u,455409054707126u,2789450346822694u},
{941759775416532u,2108780421474316u,261089850068153u,2789450346822694u},
{4247949799838938u,2886609949142181u,261089850068153u,3567279874490559u},
{2303099626113289u,2886609949142181u,2788897637710721u,66770645429180u},
{2594854787627735u,2886609949142181u,2788897637710721u,66770645429180u},
{2740732368384958u,2886609949142181u,2788897637710721u,66770645429180u},
{2594854787627735u,3324242691413850u,1767754572410160u,504403387700849u},
{2594854787627735u,3324242691413850u,2230160835734677u,2959548739520792u},
{2594854787627735u,1002588159824706u,637894207931648u,2959548739520792u},
{3457733511644649u,1002588159824706u,2230160835734677u,2826057919289993u},
{704639618047048u,1002588159824706u,2230160835734677u,2528109377512335u},
{853613888935877u,1002588159824706u,2230160835734677u,2379135106623506u},
{2304647971179092u,1002588159824706u,928101024380291u,2379135106623506u},
{2304647971179092u,2453622242067921u,2230160835734677u,2379135106623506u},
{2304647971179092u,2453622242067921u,2230160835734677u,2379135106623506u},
{602586071541695u,751560342430524u,4081197006260903u,2379135106623506u},
{602586071541695u,1347457425985840u,230150394319622u,4379145548038561u},
{602586071541695u,123990798945069u,1453617021360393u,4379145548038561u},
{602586071541695u,363288435243382u,1453617021360393u,1214319385062080u},
{602586071541695u,1108159789687527u,1453617021360393u,257128839868828u},
{602586071541695u,855372930614611u,1453617021360393u,4341980795912u},
{602586071541695u,2431041400715550u,1453617021360393u,1580010450896851u},
{602586071541695u,4069906585584718u,1453617021360393u,3218875635766019u},
{602586071541695u,918569645382840u,1453617021360393u,67538695564141u},
{602586071541695u,3313670707918363u,1453617021360393u,2462639758099664u},
{602586071541695u,256066490092632u,1453617021360393u,1107097439911330u},
{4006709870816489u,1611608808280966u,2146656184258519u,2809159339548727u},
{4006709870816489u,1280357230635862u,2477907761903623u,2809159339548727u},
{1114731441813310u,1280357230635862u,2643533550726175u,2809159339548727u},
{1114731441813310u,4337961448461593u,2312281973081071u,3140410917193831u},
{1114731441813310u,4337961448461593u,2312281973081071u,2726346445137451u},
{4130929212433403u,1321763677841500u,2519314209109261u,2726346445137451u},
{4130929212433403u,1321763677841500u,2622830327123356u,2726346445137451u},
{1114731441813310u,4441477566475688u,2519314209109261u,227729264587833u},
{1114731441813310u,2778104504144499u,2519314209109261u,4182687271440450u},
{3351000740274856u,541835205682953u,1946417972978904u,4182687271440450u},
{4496793212535570u,541835205682953u,2519314209109261u,3609791035310093u},
{4496793212535570u,541835205682953u,2519314209109261u,3064552622209677u},
{269215999132745u,541835205682953u,2791933415659469u,3064552622209677u},
{269215999132745u,1632312031883785u,1974075796008845u,3337171828759885u},
{269215999132745u,950764015508265u,2655623812384365u,3337171828759885u},
{269215999132745u,609990007320505u,2996397820572125u,3337171828759885u},
{439603003226625u,609990007320505u,2996397820572125u,3166784824666005u},
{4019709601072706u,609990007320505u,2314849804196605u,3166784824666005u},
{184022497085805u,609990007320505u,2740817314431305u,3166784824666005u},
{397006252203155u,609990007320505u,2953801069548655u,3166784824666005u},
{184022497085805u,1248941272672555u,2527833559313955u,3592752334900705u},
{184022497085805u,716481884879180u,2527833559313955u,3060292947107330u},
{2794063253210643u,716481884879180u,450252190982492u,3060292947107330u},
{2794063253210643u,1248941272672555u,1462914783727205u,4125211722694080u},
{2794063253210643u,2021502262941599u,690353793458161u,4125211722694080u},
{2407782758076121u,2021502262941599u,304073298323639u,3738931227559558u},
{2407782758076121u,2214642510508860u,110933050756378u,3545790979992297u},
{2794063253210643u,1828362015374338u,110933050756378u,3545790979992297u},
{2794063253210643u,1828362015374338u,110933050756378u,2311212634292490u},
{728222223606282u,3894203044978699u,4377053663896851u,2311212634292490u},
{2794063253210643u,4028641598910450u,2176774080360739u,3411352426060546u},
{2794063253210643u,1278292119490310u,661002946640406u,3411352426060546u},
{2794063253210643u,1278292119490310u,2036177686350476u,520406552630143u},
{43713773790503u,856502937459521u,801599340650669u,1614388504319687u},
{3481650623065678u,1965879489345345u,4239536189925844u,2723765056205511u},
{3481650623065678u,1965879489345345u,246911064707757u,2723765056205511u},
{3481650623065678u,727452493596468u,1485338060456634u,2723765056205511u},
{598402049733415u,450108355625012u,3001109194176967u,375961508570810u},
{3620322692051406u,450108355625012u,3001109194176967u,1069321853499450u},
{3620322692051406u,796788528089332u,177575030214893u,1416002025963770u},
{945082222197735u,450108355625012u,325868724323296u,1069321853499450u},
{1316808786785812u,450108355625012u,1936022284660250u,1069321853499450u},
{883458571205412u,2121885566954289u,1502672069079850u,2741099064828727u},
{3793662778283566u,1688535351373889u,697595288911373u,2741099064828727u},
{2771910890324889u,666783463415212u,1719347176870050u,2741099064828727u},
{2230223120849389u,666783463415212u,155907519435873u,2741099064828727u}};
