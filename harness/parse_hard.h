// generated by tools/genhard2.py
enum { FP_FIRST = -56 };
static const unsigned long long FP_HARD[88][4] = {{100000000u,100000000u,100000000u,100000000u},
{100000000u,100000000u,100000000u,100000000u},
{700649233u,700649232u,100000000u,100000000u},
{630584309u,350324616u,280259693u,980908925u},
{413383047u,175162308u,826766094u,196181785u},
{618673272u,657909629u,923455688u,117709071u},
{696235142u,193449253u,502785889u,386898506u},
{735016077u,185693066u,920709143u,371386132u},
{351265588u,536958654u,444112121u,185693066u},
{123948983u,320163138u,444112121u,640326276u},
{927467073u,483354952u,888224242u,522597783u},
{407357486u,679569107u,564328810u,522597783u},
{463790367u,368000994u,451463048u,522597783u},
{874472202u,522597783u,817564414u,931379990u},
{424334841u,413907150u,476117686u,465689995u},
{413978272u,465689995u,320840273u,372551996u},
{798929702u,745103992u,772016847u,718191137u},
{772016847u,728956279u,750486563u,707425995u},
{467516165u,479819660u,369091534u,565940796u},
{374012932u,383855728u,369091534u,378934330u},
{411906365u,583165689u,435035604u,715053829u},
{329525092u,550291283u,438283993u,441532382u},
{483086909u,351926550u,262320718u,441532382u},
{524641436u,563082480u,543861958u,582303002u},
{609780467u,450465984u,477943449u,422988519u},
{477943449u,296646994u,455961477u,274665022u},
{455961477u,839404372u,528480059u,766885790u},
{528480059u,460131474u,375102901u,613508632u},
{375102901u,320424033u,347763467u,293084599u},
{508740401u,611978797u,457121203u,560359599u},
{457121203u,373573066u,481706934u,614426533u},
{292940538u,544629066u,279189868u,321485995u},
{686974134u,611676399u,483082001u,815568532u},
{376488675u,664973062u,361429128u,680032609u},
{540543579u,420067203u,440679970u,320203594u},
{600781767u,640407188u,496475582u,536101003u},
{496475582u,702990899u,373405213u,413030634u},
{554467635u,413030634u,463936424u,322499423u},
{544286477u,604274214u,685723478u,745711215u},
{641146225u,551991719u,685723478u,596568972u},
{512916980u,510165723u,342861739u,340110482u},
{820667168u,612749119u,685723478u,477805429u},
{631746002u,477805429u,739700954u,585760381u},
{530184534u,431819808u,579366897u,320668114u},
{579366897u,641336228u,670452544u,550250581u},
{413170713u,416907412u,435716426u,394361699u},
{314792227u,319973398u,317084454u,317681171u},
{251356408u,250596717u,250759691u,251193434u},
{400304389u,400086236u,400218153u,400172472u},
{320045681u,320032444u,320013237u,320064888u},
{256010849u,256004776u,256006073u,256009552u},
{409602417u,409600708u,409601709u,409601416u},
{327680293u,327680332u,327680586u,327680039u},
{262144047u,262144078u,262144094u,262144031u},
{419430426u,419430424u,419430401u,419430449u},
{335544341u,335544339u,335544321u,335544359u},
{268435473u,268435471u,268435457u,268435487u},
{429496909u,429496755u,429496781u,429496883u},
{343597609u,343597527u,343598121u,343598039u},
{274878677u,274878251u,274880725u,274880299u},
{439828113u,439828847u,439811729u,439812463u},
{351856157u,351869411u,351921693u,351934947u},
{281960761u,281648839u,281698617u,281910983u},
{451757733u,454211931u,453854885u,452114779u},
{375983649u,362213855u,367595041u,370602463u},
{338599021u,332489619u,305044589u,298935187u},
{785784649u,824828087u,517349193u,556392631u},
{402166323u,652053782u,421688042u,460731480u},
{317049737u,579429205u,421688042u,395136613u},
{585052973u,653459724u,691258689u,478847257u},
{509086429u,577493180u,539325601u,410440506u},
{487771563u,461994544u,325181042u,598808046u},
{775279097u,749502078u,525445071u,499668052u},
{609912470u,584135451u,415200653u,389423634u},
{487929976u,316694311u,342471330u,462152957u},
{514440349u,512973641u,513706995u,512240287u},
{479459862u,691498745u,410965596u,623004479u},
{480771079u,346404981u,341160113u,413588030u},
{268732196u,268932243u,289311574u,289511621u},
{421699753u,446835110u,429811476u,413588030u},
{345631563u,357468088u,360392702u,330870424u},
{284777011u,294246231u,280042401u,289511621u},
{701205807u,496305636u,535770595u,661740848u},
{652332781u,661740848u,438024543u,447432610u},
{438024543u,277867633u,518102998u,357946088u},
{649028969u,651829412u,518102998u,779954940u},
{671293543u,364912453u,571033475u,623963952u},
{342620085u,334274344u,456826780u,448481039u}};
enum { DP_FIRST = -342 };
static const unsigned long long DP_HARD[636][4] = {{10000000000000000u,10000000000000000u,10000000000000000u,10000000000000000u},
{10000000000000000u,10000000000000000u,10000000000000000u,10000000000000000u},
{74109846876186982u,24703282292062327u,98813129168249309u,49406564584124654u},
{27173610521268560u,61758205730155818u,44465908125712189u,79050503334599447u},
{36313824969331621u,69910288886536386u,72627649938663242u,33596463917204765u},
{91426847762922673u,34955144443268193u,56471703319654480u,63190996103095433u},
{82956092264974501u,77308921933009053u,80132507098991777u,74485336767026329u},
{64388364195791694u,95876650002191860u,80132507098991777u,31488285806400166u},
{13018852097457475u,28762995000657558u,22606517097676661u,19175330000438372u},
{74511257921135390u,14381497500328779u,79305090421244983u,19175330000438372u},
{75606288961444439u,46322539876888582u,29283749084555857u,92645079753777164u},
{19753511779977746u,66076051656866328u,42914781718422037u,46322539876888582u},
{97750974221912874u,11239859153375491u,86511115068537383u,21798166675057673u},
{48875487110956437u,14134730757202822u,34740756353753615u,63010217868159259u},
{48994701218807125u,14015516649352134u,97989402437614250u,63010217868159259u},
{46203519299721767u,36404579055960342u,82608098355682109u,72809158111920684u},
{56566656632692798u,18202289527980171u,38364367104712627u,74768946160672969u},
{65863780201558112u,46877575454077027u,94147108517904511u,37580451885211713u},
{65863780201558112u,62066539252061895u,45174933784204147u,86552626618912077u},
{61726010918087319u,49653231401649516u,45174933784204147u,54131529019094885u},
{45174933784204147u,43928460071585321u,45798170640513560u,44551696927894734u},
{81190233440305582u,52464857343378620u,51001224560874329u,66827545391842101u},
{45841602454490653u,44551696927894734u,37407260271281651u,65885094377062926u},
{37189244174230890u,35899338647634971u,29667827111706137u,52450094396331157u},
{59502790678769424u,70508771768674023u,75668393875057699u,86674374964962298u},
{49803428760996459u,60809409850901058u,62735911318027079u,73741892407931678u},
{31037958136873488u,42043939226778087u,52389925272402583u,31697953181153591u},
{58465517890921260u,86553072689249135u,52389925272402583u,92628665307767812u},
{46772414312737008u,69242458151399308u,75776132428771087u,58007436232068158u},
{44525409928870778u,35744731267632769u,53513427464335698u,44732748803097689u},
{83865348210689515u,60703841492707634u,69484520153945643u,75084669549451506u},
{67092278568551612u,43930771850569731u,46323013435963762u,64700036983157581u},
{52869108047875363u,39776918824052161u,46323013435963762u,56392330930122441u},
{46323013435963762u,43100001245266217u,29807671560409993u,26584659369712448u},
{59615343120819986u,54458523615703914u,62193752873378022u,57036933368261950u},
{42504263110341401u,48754830278877719u,39378979526073242u,45629546694609560u},
{47067217779802357u,25940056931572939u,28815399101958533u,36503637355687648u},
{63781388806900358u,76082570012866942u,57630798203917066u,69931979409883650u},
{42801794983935263u,54260368851896774u,44487009659945409u,55945583527906920u},
{37207236631144571u,37476693793524698u,29658006439963606u,44756466822325536u},
{71394781185816756u,68644546271724497u,83473549491706300u,53815543051742694u},
{56565777965834953u,53815543051742694u,66778839593365040u,43602481424212607u},
{49887894006498449u,33781891173733182u,53423071674692032u,30246713505539599u},
{68742957643460925u,76206371411846278u,47924950066297614u,44780482610312118u},
{54994366114768740u,49887424362540429u,40067538577998034u,34960596825769723u},
{43995492891814992u,34960596825769723u,36139584264181076u,42816505453403639u},
{45253881018475456u,87911585095380873u,65443445962641367u,63164871774067772u},
{35449023840589701u,35642490842906463u,35545757341748082u,48499239800076976u},
{51716755997312487u,49893896646453611u,50805326321883049u,48982466971024173u},
{52628185672741925u,55862385403854806u,63153822807290310u,87439296807499961u},
{42102548538193540u,45336748269306421u,50523058245832248u,36916238561667713u},
{33682038830554832u,42358966435333527u,47801694308999341u,56478621913778036u},
{88661846534175726u,46855409065804953u,90397232055131465u,48590794586760692u},
{54238339233078879u,43100434905875542u,72317785644105172u,61179881316901835u},
{47845833117344438u,36707928790141101u,35609856853964071u,48943905053521468u},
{72976628805811390u,62277953253078865u,60521038155195617u,85432219456427163u},
{58381303044649112u,54101832823556102u,60521038155195617u,56241567934102607u},
{59665144110977015u,56241567934102607u,30812185591869672u,57953356022539811u},
{85242989843805025u,57854380428809761u,58052331616269861u,51106203668790995u},
{44318436671280209u,61327444402549194u,47751910407527622u,64760918138796607u},
{57957315046289013u,61359116592542810u,34271392982486898u,34018015462537970u},
{84567380363053308u,98174586548068496u,91370983455560902u,52489094820288045u},
{59877526563388075u,62986913784345654u,77763777270545714u,41991275856230436u},
{47902021250710460u,32971143240792833u,44792634029752881u,51011408471668039u},
{38321617000568368u,46781477981301482u,42551547490934925u,33839443922932456u},
{51061856989121910u,42450650456027183u,68082475985495880u,59471269452401153u},
{40849485591297528u,45854774255301977u,54465980788396704u,59471269452401153u},
{34563265035509355u,44573842363518253u,29676415274635353u,49579131027522702u},
{71270772220377026u,47553327781294833u,55419662959945415u,63404437041726444u},
{36350956286175303u,41236571857748278u,44335730367956332u,38137413347540224u},
{48915379494271788u,27053480755551141u,45312853482270927u,46289976596585522u},
{55788806051089710u,42705203871821466u,42788144854431932u,42797992406979261u},
{44631044840871768u,34199309001010825u,44826469463734687u,34394733623873744u},
{27804227536732329u,29367624519635681u,28585926028184005u,30149323011087357u},
{51454666850731209u,51991069576707816u,45737481645094408u,46273884371071015u},
{68606222467641612u,43557888108035009u,45737481645094408u,66426628930582213u},
{49875311102191969u,41378294570975610u,41599652187996847u,33102635656780488u},
{84810164635428471u,59761830275821868u,88031885154298025u,62983550794691422u},
{42654711390466208u,66704529459064921u,70425508123438420u,62983550794691422u},
{44651743972481988u,31491775397345711u,56340406498750736u,29894149331733087u},
{89480335968407109u,46400954058188726u,86158763820436766u,49722526206159069u},
{41066227418756962u,67638804602519706u,58982505815117599u,54352516010638334u},
{30194662113101282u,29995205345129163u,29631934748667296u,38692457589653707u},
{47015062235707857u,47436729775669149u,47225896005688503u,62463530919983443u},
{70645378128256257u,66941386284672845u,72497374050047963u,68793382206464551u},
{42016827692595413u,53553109027738276u,37888530044619374u,34608844005428589u},
{48768874171924080u,71841436842209806u,60305155507066943u,83377718177352669u},
{39015099337539264u,42580112339055358u,40797605838297311u,44362618839813405u},
{46105116604743898u,44362618839813405u,54977640372706579u,35490095071850724u},
{94365244504728474u,90467735444557303u,50667617782225223u,52317671903465963u},
{43202610486131029u,63020166611235032u,50997628606473371u,70815184731577374u},
{33452575752622441u,61725171646565082u,48725125335220298u,46452622063967225u},
{25398558639346109u,48925636663001451u,39434600922426853u,37162097651173780u},
{61731859513131121u,57186852970624975u,64004362784384194u,59459356241878048u},
{64004362784384194u,54876922580442087u,45712055257570165u,36584615053628058u},
{27397291459398247u,45741996952714017u,27427233154542099u,27487116544829803u},
{49321112965945615u,60387819652222781u,45712055257570165u,47636350892333298u},
{62553254277248051u,33682398039355772u,36569644206056132u,44268432174219985u},
{27715957771212135u,43113533707539841u,45423330640900129u,35414745739375988u},
{46501128847860842u,47578927054821555u,83302073833075267u,43111928278428520u},
{56016914258825153u,38063141643857244u,35907545229935818u,58172510672746579u},
{51995040453047286u,50128763061190845u,35907545229935818u,34041267838079377u},
{55959050454412156u,80206020897905352u,43835565232665558u,68082535676158754u},
{62301466456595948u,46164753059825975u,34602614620700363u,36931802447860780u},
{41988975110272519u,36931802447860780u,34602614620700363u,29545441958288624u},
{59170643318195429u,59090883916577248u,78920777558133299u,78841018156515118u},
{63120670166183003u,47240803372614526u,63200429567801184u,47320562774232707u},
{41032423578099861u,53608701970365553u,34744284381967015u,47320562774232707u},
{69488568763934030u,87692268672072011u,55590855011147224u,73794554919285205u},
{40831944027290183u,47721521875852063u,37387155103009243u,44276732951571123u},
{42898817381858747u,29517821967714082u,40142986242433995u,45654648521283499u},
{88473833846546427u,67064241183914963u,77769037515230695u,56359444852599231u},
{46661422509138417u,50503659693013906u,62215230012184556u,66057467196060045u},
{45161499389097058u,44319108445304287u,35792243133760538u,34949852189967767u},
{92385919392743182u,56593676258982644u,71584486267521076u,74489797825862913u},
{40626442513839176u,38697554692102375u,48365953452259651u,46437065630522850u},
{51461757827627841u,30958043753681900u,45270149076891461u,37149652504418280u},
{60130010078658773u,49532870005891040u,70036584079836981u,59439444007069248u},
{60268123292976678u,39626296004712832u,49947209648844755u,59715670435705058u},
{59936651578613706u,49726228505936107u,39957767719075804u,59494689292796410u},
{97763942225990531u,59494689292796410u,62067128650312685u,71393627151355692u},
{51711654406263168u,72422602894362202u,49653702920250148u,57951225678286645u},
{37240277190187611u,48007341731439732u,49653702920250148u,60420767461502269u},
{46183201060951391u,42712699201652634u,31945634660400513u,28475132801101756u},
{77773276757996054u,42783810994323804u,67503994765442123u,71116720210083220u},
{60050986139612185u,35672138973315482u,53280650723425479u,56893376168066576u},
{48040788911689748u,29260256267580605u,40456885311955725u,44069610756596822u},
{79032897525488255u,43203684583487871u,68343741943770257u,71956467388411354u},
{63226318020390604u,36730582933574955u,55397538643944425u,59010264088585522u},
{37092580025873346u,29384466346859964u,33238523186366655u,36609917236142158u},
{44318030915155540u,60984834239477705u,53181637098186648u,69848440422508813u},
{35454424732124432u,38787785396988865u,67575488799384431u,36666967313508763u},
{27696867652726659u,31030228317591092u,52060374640588885u,30000245983779897u},
{79551245826553305u,54981742371928840u,83296599424942216u,58727095970317751u},
{63640996661242644u,58727095970317751u,39311205527399144u,58487383649536786u},
{53861137743549051u,48947237052624158u,29483404145549358u,48755467195999386u},
{67581705706813797u,70453338178718824u,45054470471209198u,47926102943114225u},
{54639691059832043u,57511323531737070u,70938499765172706u,38340882354491380u},
{50805602824382905u,46009058825389656u,35469249882586353u,30672705883593104u},
{81288964519012648u,91639429272852590u,86464196895932619u,51752323769199710u},
{45062337880572851u,73311543418282072u,39457960432951641u,54554512493010315u},
{39457960432951641u,48127111952505220u,52610613910602188u,34974458474854673u},
{84057841298307358u,80530610211157855u,49381235220093042u,48189825633531614u},
{42793937345911651u,64424488168926284u,71478950343225290u,57370025994627278u},
{42887370205935174u,35926340891659691u,57183160274580232u,50222130960304749u},
{88708644713618178u,75879806795847035u,51315351671084572u,61957748167296069u},
{68838436471652243u,60703845436677628u,43180760636109957u,70092339202270684u},
{46434597050099803u,39926924222120111u,43180760636109957u,36673087808130265u},
{86361521272219914u,57849995759362063u,57023051025715702u,87188466005866275u},
{57023051025715702u,52313079603519765u,39585357824542447u,69750772804693020u},
{39585357824542447u,41850463682815812u,53535512385481051u,55800618243754416u},
{50364364183898340u,25822206784316361u,49911343012243667u,25369185612661688u},
{49005300668934321u,77305427432277771u,42103576033737364u,70403702797080814u},
{58289495394840395u,53423626739074744u,37237707377971713u,32371838722206062u},
{46631596315872316u,27843818440071110u,37237707377971713u,36899859004341014u},
{74475414755943426u,59512762130028601u,44887957877744475u,74137566382312727u},
{34269229271535411u,34558972807672784u,35910366302195580u,33207579313149988u},
{26932774726646685u,26913755693884838u,27531280831683278u,27512261798921431u},
{43092439562634696u,43567440640111601u,47880488402927440u,48355489480404345u},
{67127683979593797u,38494391153332714u,47975488618422821u,57646586514503690u},
{28633292826261083u,52451929156025607u,47975488618422821u,46117269211602952u},
{76017494026748566u,50509352596191883u,43583405233833890u,54225791409831621u},
{53583889700087970u,54225791409831621u,35508625896810763u,36150527606554414u},
{42867111760070376u,36792429316298065u,35508625896810763u,50225597623329989u},
{45040224053681840u,45879373036107061u,51114906497454151u,51954055479879372u},
{36032179242945472u,38965541609909529u,49020693112915315u,51954055479879372u},
{36283192123368195u,42149916857296309u,29412415867749189u,35279140601677303u},
{63533969962262593u,69014832527136074u,54115693508734163u,83913971545537985u},
{41100209781037938u,42813761764500047u,48634830943860682u,50348382927322791u},
{46306403272116428u,50348382927322791u,29523608963008831u,33565588618215194u},
{63089197581224025u,83790996407881556u,50471358064979220u,71173156891636751u},
{50471358064979220u,56031749472142985u,40377086451983376u,45937477859147141u},
{41489164733416129u,42601243014848882u,42943511335253150u,30026113598684331u},
{49119750711239703u,69941314074050616u,65493000948319604u,53568063836970715u},
{76206613715713747u,41643126725621826u,66704325292274350u,42854451069576572u},
{31936234699031194u,59027172022243404u,48108955651698026u,45481703360637299u},
{74872527209868260u,77663462383449975u,58781647698461922u,90963406721274598u},
{59898021767894608u,62130769906759980u,58781647698461922u,61014395837327294u},
{58781647698461922u,54243131811934953u,40700603761150271u,36162087874623302u},
{45209911804158750u,40671395917631781u,31652779831614823u,27114263945087854u},
{72335858886654000u,40683079055039177u,63305559663229646u,49713378278463531u},
{57868687109323200u,52431814555416754u,60587123386276423u,55150250832369977u},
{46294949687458560u,33402760616744193u,30602791360537201u,26565903434734251u},
{74071919499933696u,64409240769861689u,48313393650360035u,61179730429219329u},
{55392464107918154u,36067106647774140u,65055142837990161u,45729785377846147u},
{50628300178880505u,28853685318219312u,33752200119253670u,45729785377846147u},
{81005280286208808u,42683195799628165u,54003520190805872u,59230665425547615u},
{65849653275915395u,34146556639702532u,42157387105696349u,47384532340438092u},
{52679722620732316u,31498961499555420u,36862196825402125u,42089342060143868u},
{68497248416062507u,49461781425224293u,58979514920643400u,78951538885545993u},
{34451151978321661u,67155635901417313u,47183611936514720u,43563829933159953u},
{50803393939869487u,30507325542502242u,37746889549211776u,43563829933159953u},
{55741470971580300u,63316138060003205u,63859898330527198u,47623043612633402u},
{44593176777264240u,47623043612633402u,46108110194948821u,49137977030317983u},
{35674541421811392u,31300706319412287u,46108110194948821u,41734275092549716u},
{50481945297347926u,66975247741223679u,46982877215428642u,63476179659304395u},
{70474315823142963u,36784671399766380u,46982877215428642u,48881910471436079u},
{45083843959421205u,39865141679551838u,36067075167536964u,48881910471436079u},
{66915448055204561u,61696745775335194u,56663579812085269u,51444877532215902u},
{56663579812085269u,51444877532215902u,65908814862554576u,42199642481746595u},
{30538487768917324u,42199642481746595u,38978416265266643u,33759713985397276u},
{71939139825308153u,67519427970794552u,48616830399649611u,73162889978398690u},
{55783427118441082u,51363715263927481u,39777406690622409u,58530311982718952u},
{32036736927306355u,37555202727531104u,46394626436558306u,51913092236783055u},
{48826702760124237u,88110276514790367u,92789252873116612u,90357176549550681u},
{55187136459156781u,45458831164893057u,40034192737525762u,50322983812024919u},
{60051289106288643u,36254967775867359u,48153128441078001u,56272064144630240u},
{51288605566451810u,93170779756782193u,96306256882156002u,90035302631408384u},
{68668570667658725u,41882174190330383u,54424082691825619u,55275372428994554u},
{54934856534126980u,55615888323862128u,54594340639259406u,55275372428994554u},
{43947885227301584u,27637686214497277u,32620398025608614u,38965173416190247u},
{71585571441798861u,48027163177544623u,53461591919090109u,59806367309671742u},
{33345910229570392u,46576138769621067u,40231363379039434u,39690685620152025u},
{42877409087049569u,26460457080101350u,37585317671029299u,31752548496121620u},
{79922048999191459u,42336731328162160u,71454702733559027u,50804077593794592u},
{50389885174341276u,33869385062529728u,37585317671029299u,42129635118435502u},
{32794844605267161u,42129635118435502u,37585317671029299u,28004371539505023u},
{74973710847373850u,56156436450023607u,56254898697365981u,74875248600031476u},
{63703038658432179u,67427108638965278u,34304327803536883u,37240699805330990u},
{47983174942319264u,33516629824797891u,51707244922852363u,29792559844264792u},
{51707244922852363u,68007205876275794u,70814567938857864u,48899882860270293u},
{52268717335368777u,67445733463759380u,69691623113825036u,50022827685303121u},
{38779570642616901u,53956586771007504u,30912052471208135u,46089068599598738u},
{74188925930899524u,52271479093840365u,49459283953933016u,77001121070806873u},
{63734630112131451u,41817183275072292u,57101384632793740u,70367875591469162u},
{56178277616735403u,35183937795734581u,45681107706234992u,37030151827851255u},
{59269417161665563u,54310889347515174u,64206770738712397u,49373535770468340u},
{39515768006057516u,69131419773497098u,49382005465309762u,44440417040842217u},
{52346958519990289u,48393687780416253u,50370323150203271u,46417052410629235u},
{50370323150203271u,71690882120410515u,52946724886799532u,87503965078706659u},
{45590931008842570u,57352705696328412u,39710043665099649u,64708499574285374u},
{36472744807074056u,46472127170748346u,31473053625236911u,41472435988911201u},
{70945613141413254u,86944624923292118u,78945119032352686u,94944130814231550u},
{69450705950929531u,56966478488538930u,50461879788083221u,75955304651385240u},
{42866349322944697u,45573182790831144u,58057410253221745u,60764243721108192u},
{50898252493956347u,90362217402563727u,92891856405154792u,88439532113775841u},
{42499531711716658u,74070703638602562u,71642090549296463u,67189766257917512u},
{59985067014264541u,51080418431506639u,36671019944200697u,55532742722885590u},
{36671019944200697u,33319645633731354u,25564471399623579u,44426194178308472u},
{47777568488777815u,50630333565594692u,57333082186533378u,79296874658861381u},
{38222054791022252u,34000961924998054u,40332601224034351u,36111508358010153u},
{35392511613885822u,36830505102134484u,34673514869761491u,36111508358010153u},
{42183415239013254u,42076770929677103u,48255322120016355u,48148677810680204u},
{43376467753346644u,57799742234683475u,33725403329343373u,48148677810680204u},
{33725403329343373u,46239793787746780u,29907635283476525u,37543171375210221u},
{53833743510257745u,73983670060394848u,79965197117090153u,68002143003699543u},
{43066994808206196u,58431699712987055u,38281773162849952u,63216921358343299u},
{32943123175907310u,39844241473148477u,45182891460091119u,27604473188964668u},
{52708997081451696u,60235102702812273u,65261259027695210u,72787364649055787u},
{37156795979435014u,54208966659338280u,39156755416617126u,36630548388211829u},
{39156755416617126u,54314216177582917u,52209007222156168u,41261964372043875u},
{76966185845382493u,49514357246452650u,60461400096564943u,66019142995270200u},
{47257571497510903u,39611485797162120u,60461400096564943u,52815314396216160u},
{39335274338078479u,31689188637729696u,28772211458835247u,42252251516972928u},
{71024462975808175u,56094717843622586u,56819570380646540u,70299610438784221u},
{56819570380646540u,47571782286525605u,45455656304517232u,58935696362654913u},
{45455656304517232u,38057425829220484u,49154771542165606u,41756541066868858u},
{49154771542165606u,76641420015423294u,62898095778794450u,90384744252052138u},
{60570685617054542u,40066267629016578u,50318476623035560u,57771991281784959u},
{52928657288893273u,35034419966713022u,40254781298428448u,47708295957177847u},
{93032627651792225u,70370461804485036u,67986497541921567u,72754426067048505u},
{74426102121433780u,41980979585843828u,45324331694614378u,51763936274126591u},
{59540881697147024u,50426595430618371u,31107781692081732u,43986990851106158u},
{60075818034550312u,50961531768021659u,83139186134909967u,74024899868381314u},
{73913838894766105u,55574205388093590u,55463144414478381u,74024899868381314u},
{51795217713143878u,44459364310474872u,55463144414478381u,48127291011809375u},
{62798997817147387u,57752749214171250u,82049914221871137u,77003665618895000u},
{43548081412423637u,46202199371337000u,58948814536202637u,61602932495116000u},
{52788521286691037u,36961759497069600u,40467934787667837u,49282345996092800u},
{35539700188058557u,29569407597655680u,25683230988839997u,39425876796874240u},
{45396169387277117u,47311052156249088u,61166520106026813u,63081402874998784u},
{37082888617410482u,63081402874998784u,50082145746204633u,51997028515176604u},
{48167262977232662u,30432264001517174u,50082145746204633u,32347146770489145u},
{82912479881481722u,54395098648936519u,45769192843472747u,63021004454400291u},
{43374696047748793u,61823756056538314u,45769192843472747u,64218252852262268u},
{45769192843472747u,42220763713115265u,47543407408651488u,43994978278294006u},
{44848818444835310u,77771589248786218u,45982652885108073u,43141138111752702u},
{35879054755868248u,61195434668248795u,35764285577306279u,35534747220182341u},
{50024092136804003u,29587357521200415u,39805724829002209u,38737980426797242u},
{79611449658004418u,47339772033920664u,63475610845962541u,62407866443757574u},
{45393897554158249u,69502848609897305u,38298915388018518u,43258408749748315u},
{46950597137968181u,55602278887917844u,50642785526188047u,34606726999798652u},
{47435573820910168u,68540852241339287u,85249512525986699u,82042300820708820u},
{36024132033561407u,53549797110960278u,68841052361844935u,65633840656567056u},
{33950844355293732u,48658418478920190u,41304631417106961u,42243995068364432u},
{55072841889475948u,66463155727874126u,49377684970276859u,60767998808675037u},
{49377684970276859u,37212290206210999u,55460382352309789u,43294987588243929u},
{33729482964455630u,43294987588243929u,48161145493870273u,57726650117658572u},
{77024470552699559u,84710236489223076u,92562813613210982u,53800361555664619u},
{49322350943722020u,47718473281431561u,66297760479059513u,64693882816769054u},
{39457880754977616u,37854003092687157u,52075881785873335u,50472004123582876u},
{65698813467628920u,56481531133315439u,83321410857397336u,59283302818467084u},
{69621293826841223u,57041885470345768u,54800468122224452u,42221059765728997u},
{31288437348300192u,41672131119373447u,32706461726888183u,33026628812765074u},
{84661690990000214u,64534637619607486u,74598164304803850u,54471110934411122u},
{77201874559519829u,42155188328166331u,59678531443843080u,71994454050087871u},
{59298315126366905u,36187335183782023u,47742825155074464u,60058747761319255u},
{47438652101093524u,36035248656791553u,35426902548829673u,48046998209055404u},
{59450401653357375u,72313835756767858u,47560321322685900u,60423755426096383u},
{47560321322685900u,41399626897022023u,38048257058148720u,50911691161559203u},
{38048257058148720u,35692388338299715u,30438605646518976u,28082736926669971u},
{75625340372327639u,42359692261989857u,48013777189627469u,44244387237869061u},
{36903265770998612u,62696020123368367u,33199761964788993u,58992516317158748u},
{33199761964788993u,30951305222843706u,45765320447682182u,43516863705736895u},
{48013777189627469u,47723322962993700u,43807317932370664u,43516863705736895u},
{40151696299931451u,38178658370394960u,36786528894126007u,34813490964589516u},
{30380682491715685u,30542926696315968u,34651246759989233u,34813490964589516u},
{50414664216814685u,52220236446884274u,67821409699109443u,69626981929179032u},
{54979356651315390u,62303169290247211u,36720586913312570u,36619063194659105u},
{43983485321052312u,51307297959984133u,29376469530650056u,29295250555727284u},
{46937376069101872u,76232626624829156u,61585001346965514u,60087751229210041u},
{56624301306473341u,48669101030470222u,61585001346965514u,35753200713974930u},
{37362320980391196u,32177880642577437u,40937641051788689u,28602560571179944u},
{67073185526846884u,76440433620193358u,47837873049013414u,81124057666866595u},
{39307186506773483u,56368559591253345u,47837873049013414u,64899246133493276u},
{47837873049013414u,45094847673002676u,46466360361008045u,43723334984997307u},
{86382474025825219u,62309879129400525u,74346176577612872u,50273581681188178u},
{49635064114686541u,49847903303520420u,61810430994610378u,37459697234762704u},
{59178966397722867u,39878322642816336u,39452644265148578u,40304001020484094u},
{50522216464891187u,56766144130811938u,53360717109469874u,53927643486233251u},
{39964232070502248u,38713899033013377u,39397305693738871u,39280825409776754u},
{30634058408962117u,30877934999241008u,30750538692924234u,30761454715278891u},
{48901660386931311u,48849957044709314u,48879828342221997u,48871789089418628u},
{39070539252803369u,39073534233524756u,39078578505606738u,39065494980721387u},
{31251639433088476u,31252175264177149u,31253278866176952u,31250535831088673u},
{25000454216728904u,25000308722724221u,25000145494004683u,25000617445448442u},
{40000124212346857u,40000028375543768u,40000095836803089u,40000056751087536u},
{32000008568137428u,32000021949440697u,32000017136274856u,32000013381303269u},
{25600003754971587u,25600002348544038u,25600001406427549u,25600004697088076u},
{40960000742897696u,40960000477805429u,40960000265092267u,40960000955610858u},
{32768000041903284u,32768000202237341u,32768000083806568u,32768000160334057u},
{26214400021128761u,26214400027699364u,26214400042257522u,26214400006570603u},
{41943040003014463u,41943040006751162u,41943040006028926u,41943040003736699u},
{33554432000339102u,33554432001614023u,33554432000678204u,33554432001274921u},
{26843545600184533u,26843545600206092u,26843545600369066u,26843545600021559u},
{42949672960070014u,42949672960008111u,42949672960061903u,42949672960016222u},
{34359738368014431u,34359738368001194u,34359738368013237u,34359738368002388u},
{27487790694401474u,27487790694401651u,27487790694402948u,27487790694400177u},
{43980465111040542u,43980465111040083u,43980465111040459u,43980465111040166u},
{35184372088832043u,35184372088832082u,35184372088832086u,35184372088832039u},
{28147497671065622u,28147497671065603u,28147497671065619u,28147497671065606u},
{45035996273704960u,45035996273704960u,45035996273704960u,45035996273704960u},
{36028797018963968u,36028797018963968u,36028797018963968u,36028797018963968u},
{28823037615171197u,28823037615171203u,28823037615171181u,28823037615171187u},
{46116860184274089u,46116860184274007u,46116860184273961u,46116860184274135u},
{36893488147419861u,36893488147419435u,36893488147419349u,36893488147419947u},
{29514790517937809u,29514790517938543u,29514790517935761u,29514790517936495u},
{47223664828720669u,47223664828701155u,47223664828704285u,47223664828717539u},
{37778931863085369u,37778931863035591u,37778931863019833u,37778931862970055u},
{30223145490794149u,30223145490626907u,30223145490532005u,30223145490889051u},
{48357032784891425u,48357032787898847u,48357032786988577u,48357032785801695u},
{38685626235526253u,38685626229416851u,38685626243914861u,38685626237805459u},
{30948501006720841u,30948501045764279u,30948501040275273u,30948501012209847u},
{49517601852832117u,49517601968014987u,49517601584396661u,49517601699579531u},
{39614081355759281u,39614082989408591u,39614082429501105u,39614081915666767u},
{31691270728662973u,31691271055392835u,31691266433695677u,31691266760425539u},
{25353025270883929u,25353015028308391u,25353042450753113u,25353032208177575u},
{40565001626329413u,40564937730285243u,40564864187375941u,40565075169238715u},
{32452916717133889u,32452354182111167u,32452366961320001u,32452903937925055u},
{25961504906223629u,25961832203870195u,25963703929479181u,25964031227125747u},
{41565465042028137u,41540021831793047u,41547872855983721u,41557614017837463u},
{33269368131014165u,33299463861055979u,33339736875191829u,33369832605233643u},
{26708965716837073u,26771279858187567u,26990440693547729u,27052754834898223u},
{45142354850254173u,44929637697155747u,42890555036568925u,42677837883470499u},
{40103308398907257u,49968684148502663u,49110507653648249u,40961484893761671u},
{37315330972999518u,47823973699612699u,48467240676630474u,35385530041946193u},
{60262417357279205u,47180706722594924u,48209933885823364u,59233190194050765u},
{48209933885823364u,35951604981721835u,36774986712304587u,59644881059342141u},
{41019612889478997u,28761283985377468u,36774986712304587u,45264239066653407u},
{55824717499885172u,74874448287465757u,68083046403986701u,87132777191567286u},
{35946496280751409u,51186280910815877u,56653207931438350u,43566388595783643u},
{33991924758863010u,54897030182071313u,45322566345150680u,43566388595783643u},
{54387079614180816u,52630901864813779u,70759928402874051u,69003750653507014u},
{51112509856442169u,55905471622552426u,42807192591597838u,69003750653507014u},
{42807192591597838u,47600154357708095u,52327223463139457u,38080123486166476u},
{61834075802545297u,85640742247467234u,90380989885034375u,57093828164978156u},
{69439557674069969u,41882864421928812u,72304791908027500u,39017630187971281u},
{37652406676901438u,53478588569576781u,57843833526422000u,49113343612731562u},
{56424695130625019u,77927430606488286u,92550133642275200u,82400505332787781u},
{57319310075884918u,63890478604332741u,74040106913820160u,53740850294845322u},
{40598513237949676u,41678446530186693u,59232085531056128u,36187211293975887u},
{54191137366745273u,50230122494671435u,52210629930708354u,74354930023988693u},
{78315944896062531u,40184097995737148u,52210629930708354u,66289412961091325u},
{38131846900325383u,41415448652984207u,36490046023995971u,39773647776654795u},
{25251714716006188u,25128239134423219u,26639240766019499u,26515765184436530u},
{54116856092567115u,53031530368873060u,43510550018792503u,42425224295098448u},
{42859354584576070u,42642289439837259u,32342706566082839u,52507742024114057u},
{34287483667660856u,33853353378183234u,34504548812399667u,34070418522922045u},
{42621023385416942u,47698585932090863u,49435107090001351u,54512669636675272u},
{45320256681839197u,63705082591511347u,36127843727003122u,54512669636675272u},
{50835704454740842u,36448747773173711u,43481774090871982u,29094817409304851u},
{54927158626891569u,78459735791271921u,66693447209081745u,52306490527514614u},
{43160870044701393u,38967801085698265u,65645179969330963u,36871266606196701u},
{34470939100772351u,31174240868558612u,29670284089923651u,42568292343834790u},
{60428219732777744u,59051783504903485u,72238576433758441u,47241426803922788u},
{38343715934287934u,47241426803922788u,67789720998941014u,42792571369105361u},
{44232916947218550u,31014169343244129u,54570973394966593u,41352225790992172u},
{70772667115549680u,76738559348767012u,73755613232158346u,79721505465375678u},
{56618133692439744u,54015286155797775u,36877806616079173u,68549918158874408u},
{45815076461280189u,43212228924638220u,30543384307520126u,55881073541756314u},
{54457522246207833u,69139566279421152u,82398059017085990u,55881073541756314u},
{49438835410251594u,64120879443464913u,65918447213668792u,47641267640047715u},
{32179896124436387u,57169521168057258u,46861940157649706u,42487477134843939u},
{71479533833994916u,55982897570536901u,57984113398301954u,84974954269687878u},
{54884786145610351u,42487477134843939u,48686131640227145u,60180336248155054u},
{58423357968272574u,55763275285551591u,38948905312181716u,36288822629460733u},
{64446314645667532u,49740318608156633u,60380649339040565u,68511979952294499u},
{46989586386381059u,44359720216678273u,48304519471232452u,45674653301529666u},
{34076150246832995u,57273156356226337u,51294065099563747u,45674653301529666u},
{54521840394932792u,56077338104893819u,62532888695631909u,64088386405592936u},
{50648510040489938u,73390544824439671u,59950668459336673u,41346351621643203u},
{52508941724259285u,37625488254104509u,45067214989181897u,60367523038054242u},
{90134429978363794u,96254553197912732u,87074368368589325u,93194491588138263u},
{40004374582055719u,47069993786533606u,52244621021153595u,41895366551913617u},
{34630407877454248u,35029086817417212u,34829747347435730u,35228426287398694u},
{28400921248912113u,27326674506985055u,27863797877948584u,26789551136021526u},
{43351689157413237u,43722679211176088u,41795696816922876u,42166686870685727u},
{34829747347435730u,33510755464290871u,41795696816922876u,40476704933778017u},
{27863797877948584u,31853767193764470u,34491750960054188u,47104658015883621u},
{72844871414247907u,68469102633402956u,51480426796728572u,47104658015883621u},
{60026204643736306u,38558880168875887u,42934648949720838u,34183111388030936u},
{50923525629547166u,27017273566933280u,43727498820016961u,44520348690313084u},
{69012578267671790u,52948708506198027u,51363008765605781u,70598278008264036u},
{66751224159732385u,37119229750622192u,37326102106173495u,34623484636784859u},
{53400979327785908u,38241651209487907u,45706871630722606u,30547543512424605u},
{48418295068222162u,54985578322364289u,54527803770707083u,48876069619879368u},
{62225433855014753u,35526705384743983u,37787399045075069u,48876069619879368u},
{32038474164324924u,43536323925825214u,37787399045075069u,54215815313933522u},
{47317105457033348u,70644231582791975u,61445951773591743u,56515385266233580u},
{50142874720345027u,56515385266233580u,38839797667098311u,45212308212986864u},
{38839797667098311u,45212308212986864u,33620842352034070u,39993352897922623u},
{48475810990920742u,49024631829978061u,47069179292847698u,47618000131905017u},
{47069179292847698u,72730783648205055u,40345010822440884u,66006615177798241u},
{32523022563206687u,58184626918564044u,53793347763254512u,48166999081675081u},
{62301477843273642u,48166999081675081u,56537915046394244u,82199519401751601u},
{37655428927420276u,70205694829688682u,55494973779258338u,54973503145690385u},
{45021743783688214u,32984101887414231u,34027043154550137u,43978802516552308u},
{75181140784993286u,87957605033104616u,81569372909048951u,94345837157160281u},
{73903494360182153u,45995271293200788u,68792908660937621u,40884685593956256u},
{42768921250563220u,36245158808863465u,31605632023770674u,40884685593956256u},
{63211264047541348u,61906511559201397u,49580594556918138u,89889458421564068u},
{52656615219377000u,47437605266017196u,55266120196056902u,50047110242697098u},
{46086201209099349u,50047110242697098u,56524221115818957u,31687272268781992u},
{33700233740401280u,41622051807596778u,37661142773999029u,45582960841194527u},
{51141236270159541u,48362098555677034u,41687065717237605u,68932819966528998u},
{59702000895501945u,34243058501369616u,39801333930334630u,54143725466536931u},
{47761600716401556u,46183458680470005u,31841067144267704u,30262925108336153u},
{80206102032478212u,50314450616455706u,77049817960615110u,47158166544592604u},
{33512073371997377u,42609468820394195u,61639854368492088u,35368624908444453u},
{32806525204186259u,34087575056315356u,44596066840334410u,45877116692463507u},
{44596066840334410u,42698559860559163u,53515280208401292u,51617773228626045u},
{35676853472267528u,46911583693534144u,63838834854126501u,56323962763717946u},
{33065437197797642u,51815039509472813u,30059488361634220u,42797193000982547u},
{66844783690289923u,65785186014763482u,44916388352035429u,43856790676508988u},
{53051987882021362u,50932792530968480u,36780788822049496u,34661593470996614u},
{28576952917218444u,34661593470996614u,51069265280658718u,31619273194107529u},
{87556250917788783u,63238546388215058u,58370833945192522u,68106258831237594u},
{53507293039277777u,58379177019408104u,63234374851107267u,43780211227448287u},
{38908327247317960u,43780211227448287u,51561876676911879u,35998545777984695u},
{81524625887032941u,71997091555969390u,67125207575839063u,57597673244775512u},
{42180631411716148u,57597673244775512u,67125207575839063u,49889152328245830u},
{34472110495186466u,52608758011950929u,47169546644540731u,39911321862596664u},
{52248521104282437u,89980592644676740u,69664694805709916u,72564418943249261u},
{69664694805709916u,71984474115741392u,70824584460725654u,37732071540394303u},
{33092512920331351u,50041164984514253u,41566838952422802u,37732071540394303u},
{51414113707718762u,59604360982225185u,55248881119747261u,63439128394253684u},
{55457166099927031u,47683488785780148u,47475203805600378u,63439128394253684u},
{47475203805600378u,31927849177306612u,31427965224875164u,31761221193162796u},
{77615038342276271u,68219974371642485u,82312570327593164u,72917506356959378u},
{46302418230735657u,72917506356959378u,45853817149113475u,44956614985869111u},
{34848901033326241u,60566786996305598u,33014748347361702u,58732634310341059u},
{90248261821350481u,60901818845917857u,75575040333634169u,92457194716403090u},
{75575040333634169u,55474316829841854u,57083601390353551u,73965755773122472u},
{36181302306826167u,49844887568571694u,32161157606067704u,53865032269330157u},
{31677758897810039u,30710961481294709u,47758337700843891u,31194360189552374u},
{47371618734237759u,62388720379104748u,63162158312317012u,78179259957184001u},
{59539987636773803u,55917816961230594u,40900715316363605u,37278544640820396u},
{31784770540904581u,33656373965277187u,32720572253090884u,42772318740736211u},
{57261001442909047u,44034026668516234u,49080858379636326u,52214169731788955u},
{38638024433278535u,50822099317771444u,65441144506181768u,59523692325994117u},
{30910419546622828u,45391641198367276u,49985934732870354u,44068482552682703u},
{46031163485973806u,65775610340142204u,44722709530446404u,53286479002003201u},
{67084064295669606u,41963192471713123u,64324547236936325u,39203675412979842u},
{37985781271343748u,45331656601264451u,51459637789549060u,39203675412979842u},
{83317437872608199u,81353403053948793u,82335420463278496u,80371385644619090u},
{42149727640968951u,48222831386771454u,58224004769892769u,64297108515695272u},
{44149962317593214u,28148084904599110u,36149023611096162u,38221658003650139u},
{45335623180381829u,45036935847358576u,54223535416644243u,53924848083620990u},
{50728107988743928u,39644451038996477u,36149023611096162u,43139878466896792u},
{54223535416644243u,38945365553416414u,36149023611096162u,57019877358964495u},
{53364290670041456u,49271488576094635u,49708703981118417u,57019877358964495u},
{51814612913467484u,57019877358964495u,63218588385260383u,45615901887171596u},
{47054333408590549u,45615901887171596u,32328509953339668u,30890078431920715u},
{48999835890364813u,49848415091781475u,48575546289656482u,49424125491073144u},
{46613487535952822u,43246109804689001u,40435471849568679u,49424125491073144u},
{35270363390003965u,53019586947674930u,59982426135540537u,49424125491073144u},
{63532270847074730u,67082115558608923u,77366715732670758u,49697825961478702u},
{50825816677659784u,65025195523796556u,72688880304955483u,57925506100728170u},
{37933576644518581u,34755303660436902u,49518677864664215u,46340404880582536u},
{49518677864664215u,92680809761165072u,59422413437597058u,82777074188232229u},
{40324380212685269u,41033818133639166u,77811008741554950u,39728523573418232u},
{47396043165886867u,33962155180437568u,45977167323979073u,32543279338529774u},
{41171162466562471u,40187035879761964u,49799045594595168u,32543279338529774u},
{52856548211088044u,44773289804501278u,73169817083646314u,48814919007794661u},
{48793894436576390u,48814919007794661u,32522254767311503u,32543279338529774u},
{39035115549261112u,26093492270234978u,32480205624874961u,26051443127798436u},
{42934422189943569u,54674391254427482u,57245896253258092u,68985865317742005u},
{57245896253258092u,41391519190645203u,43448723189709691u,55188692254193604u},
{47321829215877461u,31346801167283969u,31708754125225778u,31467452153264572u},
{50540965022792280u,77240038958674925u,82008417176056852u,72471660741292998u},
{40432772018233824u,61792031166939940u,51112401592586882u,36235830370646499u},
{41272160347751289u,49433624933551952u,37914607029681429u,46076071615482092u},
{78515256713818746u,60952642837422475u,66324728146334251u,48762114269937980u},
{41943671011365261u,48762114269937980u,51696093865352857u,39009691415950384u},
{51886190678901450u,45447941047425917u,32191248157377665u,32951635411572037u},
{47947202174596693u,57264906560340188u,60823701437547759u,70141405823291254u},
{66414324068993856u,38797784665943025u,62687242314696458u,70141405823291254u},
{39103178090536834u,35070702911645627u,32259801431129656u,41914079571052805u},
{65791065087971900u,57726114730189486u,61758589909080693u,53693639551298279u},
{70884327747783866u,38624526316654210u,41385539269832829u,36502951354812692u},
{42106281656302016u,45628689193515865u,51232019495005189u,36502951354812692u},
{88567339955528071u,83380194206893842u,60773941886563457u,55586796137929228u},
{69816442814695611u,64629297066061382u,46544295209797074u,41357149461162845u},
{54815725102029643u,49628579353395414u,38272865317564505u,33085719568930276u},
{91854876762154812u,56049438759468979u,61236584508103208u,86667731013520583u},
{41093500198870816u,40286168618464784u,41497165989073832u,40689834408667800u},
{34376444967556967u,34586359247367630u,36410936687990357u,32551867526934240u},
{95818094924645345u,55338174795788208u,53500667139630833u,52082988043094784u},
{61481046769943581u,65103735053868480u,48460299759169885u,74501793780717277u},
{48460299759169885u,32698868139426830u,38768239807335908u,42390928091260807u},
{38768239807335908u,35615953483387297u,25218290591588888u,49165902699134317u},
{50935088622331145u,68079620642825983u,59507354632578564u,76651886653073402u},
{40748070897864916u,58699978775469159u,60314730489687969u,39133319183646106u},
{41071021240708678u,38487418497958582u,39779219869333630u,37195617126583534u},
{47735063843200356u,41173539113516897u,63646751790933808u,57085227061250349u},
{63646751790933808u,46980486594936971u,53542011324620430u,36875746128623593u},
{47584148393547679u,30917883197550842u,42833609059696344u,52334687727399014u},
{70901168656936385u,59935550661561150u,63300305722774249u,52334687727399014u},
{56720934925549108u,54527811326474061u,35089977585200752u,58613779874222041u},
{47131246819699324u,38358752423399136u,51517494017849418u,42744999621549230u},
{77052746554783785u,59731252234173751u,85713493715088802u,68391999394478768u},
{61642197243827028u,37570900772565254u,48142592942523548u,49606549008196141u},
{33407023846631965u,40270821632825950u,29471138191783166u,51070505073868734u},
{58942276383566332u,64433314612521520u,56196757269088738u,61687795498043926u},
{35914469653035318u,43730560671526267u,64012848287579687u,39080455092454745u},
{55899933241158319u,31858012129824634u,48083842222667370u,39674103148315583u},
{48083842222667370u,74539822074364429u,57700610667200844u,84156590518897903u},
{38467073778133896u,52911959703394118u,64436295230066278u,58187369066965521u},
{34523014720367571u,47328708693195900u,56548177114533628u,50299250951432871u},
{50237682622107508u,81728586754912745u,87977512918013502u,75479660591811988u},
{47590348166486334u,65382869403930196u,45189287028166612u,51684486508568821u},
{50330024745558609u,34230580711877512u,56825224225960818u,34907811593382618u},
{87429577602199047u,52441741699445178u,81611609003301944u,93247546201096150u},
{51326162565288508u,46623773100548075u,42001407945178893u,55948527720657690u},
{42001407945178893u,37299018480438460u,34541604249091201u,44758822176526152u},
{74435549161286103u,59678429568701536u,84490279289130237u,69733159696545670u},
{57407503063787402u,48813211787581969u,64380819033441969u,41839895817927402u},
{56661229992476835u,31753058399100835u,48066938716271402u,51926733236753969u},
{74591225233744703u,82310814274709837u,78451019754227270u,86170608795192404u},
{47070611852536362u,46945098918078769u,62760815803381816u,62635302868924223u},
{62760815803381816u,50133344882030897u,37631386895137571u,62635302868924223u},
{47683158458435269u,35055687537084350u,40207086253190792u,27579615331839873u},
{54229361268024532u,55159230663679746u,54694295965852139u,55624165361507353u},
{52834557174541711u,33188525337773369u,54694295965852139u,35048264129083797u},
{39931094797694449u,28887371212157615u,34409233004926032u,46091987714620631u},
{45964181489789078u,46219793939452184u,45836375264957525u,46091987714620631u},
{36157875312639808u,55514875217275242u,36669100211966020u,37691550010618444u},
{27290380572267968u,27713269745681062u,27501825158974515u,27924714332387609u},
{51336740296752428u,55454919154751309u,44002920254359224u,48121099112358105u},
{53627140076830845u,43540299552201271u,34378700431887603u,48583719814516058u},
{45742715937990367u,48583719814516058u,34665354345466914u,28410038765256910u},
{64097133095902376u,75461148602005140u,69779140848953758u,81143156355056522u},
{39594681408151702u,60368918881604112u,49981800144877907u,41548474946904820u},
{45826952650187425u,41548474946904820u,54136647639568389u,33238779957523856u},
{73323124240299880u,71611733158986838u,72467428699643359u,70756037618330317u},
{58658499392239904u,70756037618330317u,62081281554865988u,43138179003523407u},
{42087784223355758u,54185322449446171u,32091035557600643u,44188573783691056u},
{47984393595624552u,56184672182597194u,52084532889110873u,60284811476083515u},
{68160482616066477u,40189874317389010u,60122507752588675u,48227849180866812u},
{39995109849195202u,56200902554946678u,36073504651553205u,52279297357304681u},
{48098006202070940u,81138101078547245u,57717607442485128u,90757702318961433u},
{45086423936952013u,51694442912247274u,63740771972722982u,39648113851771566u},
{33425931559443506u,46641969510034028u,53635825168296490u,40033950534738767u},
{50761115568398065u,80067901069477534u,72215445635716661u,58613571002158938u},
{40608892454718452u,65316142595960441u,45208427814555932u,69915677955797921u},
{41528799526685948u,56773756858223946u,60453385146093930u,49151278192454947u},
{78059667926342177u,49939848268034750u,96725416233750288u,97513986309330091u},
{55984967543742685u,78326617077695994u,57562107694902291u,41529018765587406u},
{57562107694902291u,31961502891542240u,38374738463268194u,51148872123176337u},
{25611072300068804u,38364270966559441u,25590137306651298u,38343335973141935u},
{51180274613302596u,48596138890536459u,66517609002559370u,63933473279793233u},
{33258804501279685u,34742293956003348u,39910565401535622u,41394054856259285u},
{26607043601023748u,48189376372787479u,31631754430283765u,43164665543527462u},
{46887736315990743u,68470069087754474u,72193139860217755u,43164665543527462u},
{36172179116410473u,57452075142967822u,50459588715850833u,43164665543527462u},
{44744624876074689u,30154778531427947u,33314697196522401u,37449701703751318u},
{54130516415881625u,74899403407502636u,58265520923110542u,45766642945947365u},
{34151084543515827u,39075544169999957u,40842183319463235u,36613314356757892u},
{34643530506164240u,27459985767568419u,43796859095353713u,36613314356757892u},
{64328138761689284u,73226628713515784u,59878893785776034u,68777383737602534u},
{59878893785776034u,66997685747237234u,63438289766506634u,38837936844714517u},
{31719144883253317u,37414178452422277u,28871628098668837u,34566661667837797u},
{64577296480340426u,73689350191010762u,60021269625005258u,69133323335675594u},
{67845807329639851u,41697720535244451u,41797162203664586u,39122688523172965u},
{28703230472782859u,46947226227807558u,39162465190541019u,44352305882052045u},
{70460616009079391u,53222767058462454u,52719693656258573u,70963689411283272u},
{60218521319150005u,70963689411283272u,55966034085500408u,42980672368533068u},
{48174817055320004u,56322912804059803u,53368961742106940u,34832576619793269u},
{72190849839268127u,80338945588007926u,50843265142425351u,58991360891165150u},
{62641537320658381u,70789633069398180u,39044992964192321u,47193088712932120u},
{57922228449365169u,56631706455518544u,39044992964192321u,37754470970345696u},
{77057568333307342u,74992733143152742u,78089985928384642u,76025150738230042u},
{38632025926161401u,74786249624137282u,39457960002223241u,75612183700199122u},
{38797212741373769u,37475718219674825u,39457960002223241u,38136465480524297u},
{85750316387531975u,59961149151479720u,92584712770617468u,53126752768394227u},
{63442419662815129u,58284586215604678u,41262667577683608u,54675171064683944u},
{49722369040810013u,44564535593599562u,36104834130473157u,42708570162305065u},
{58346095642605634u,54798189918685856u,60120048504565523u,56572142780645745u},
{45034143763059991u,52800666595269362u,52577096133812757u,45257714224516596u},
{44989429670768670u,37759475946055151u,52755952502978041u,60343618966022128u},
{39169695417164798u,28761590011901417u,37580619576889867u,27172514171626486u},
{47639264836707730u,54345028343252972u,44286383083435109u,50992146589980351u},
{38111411869366184u,50992146589980351u,63342089018118201u,38642204161842501u},
{45521377326248894u,33702227190587361u,35641423383738614u,43582181133097641u},
{47497368114750950u,47534162710101753u,63342089018118201u,63378883613469004u},
{37997894491800760u,63378883613469004u,50688389052634882u,38034689087151563u},
{32943773424677593u,35489231255914578u,50614799861933276u,28000036143606835u},
{67414821548097377u,71487554078076553u,65378455283107789u,69451187813086965u},
{65378455283107789u,45743445217831355u,37597980157873003u,55560950250469572u},
{37263572163337030u,36594756174265084u,37597980157873003u,36929164168801057u},
{59621715461339248u,65402389921326789u,45385102585076382u,73858328337602114u},
{45385102585076382u,51165777045063923u,38620351852056122u,44401026312043663u},
{30133777098860477u,33208551265639914u,38620351852056122u,52518727191667975u},
{49443953024888538u,52518727191667975u,80955189339889323u,63022472630001570u},
{51544702112555257u,42014981753334380u,43141705761888381u,50417978104001256u},
{30701476465822354u,33611985402667504u,32156730934244929u,35067239871090079u}};
