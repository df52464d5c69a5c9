------------------------------- MODULE PiWords ------------------------------
(* The first 1042 32-bit words of the fraction of pi, as <<high, low>>:       *)
(* Blowfish's initial subkeys and substitution boxes.                         *)
PiP == <<
    <<9279, 27272>>, <<34211, 2259>>, <<4889, 35374>>, <<880, 29508>>, <<41993, 14370>>, <<10655, 12752>>,
    <<2094, 64152>>, <<60494, 27785>>, <<17704, 8678>>, <<14544, 4983>>, <<48724, 26319>>, <<13545, 3180>>,
    <<49324, 10679>>, <<51580, 20701>>, <<16260, 54709>>, <<46407, 2327>>, <<37398, 54745>>, <<35193, 64283>>>>
PiS == <<
    <<53553, 2982>>, <<39135, 46508>>, <<12285, 29403>>, <<53274, 57271>>, <<47329, 45037>>,
    <<27174, 32406>>, <<47740, 36933>>, <<61740, 32665>>, <<9377, 39239>>, <<45969, 27895>>, <<2049, 62178>>,
    <<34190, 64534>>, <<25449, 8408>>, <<29015, 20073>>, <<42072, 65187>>, <<62611, 15742>>, <<3477, 29839>>,
    <<29326, 46680>>, <<29067, 52568>>, <<33301, 19182>>, <<31572, 42013>>, <<49754, 22965>>,
    <<39984, 54585>>, <<10994, 24595>>, <<50641, 45091>>, <<10336, 34288>>, <<51777, 31000>>,
    <<47323, 14575>>, <<36473, 56496>>, <<24634, 6158>>, <<27806, 3723>>, <<45086, 35390>>, <<55061, 30657>>,
    <<48433, 19239>>, <<30895, 12250>>, <<21856, 23648>>, <<58965, 9715>>, <<43605, 43924>>,
    <<22344, 39010>>, <<25576, 5184>>, <<21962, 14698>>, <<10923, 4278>>, <<46284, 23604>>, <<4417, 59598>>,
    <<41300, 34479>>, <<31858, 59795>>, <<46062, 5137>>, <<25455, 48170>>, <<11177, 50525>>,
    <<29720, 12790>>, <<52828, 15894>>, <<39815, 37662>>, <<45014, 47667>>, <<27684, 53084>>,
    <<31282, 21377>>, <<10389, 34423>>, <<15247, 18584>>, <<27467, 47535>>, <<50367, 59419>>,
    <<26152, 8595>>, <<25048, 2508>>, <<64289, 43409>>, <<18556, 44128>>, <<24044, 32818>>, <<61316, 23901>>,
    <<59781, 30129>>, <<56358, 8962>>, <<60261, 7048>>, <<9097, 16001>>, <<54166, 44229>>, <<3949, 28659>>,
    <<33780, 16953>>, <<11787, 17538>>, <<42116, 8196>>, <<27080, 61514>>, <<40479, 39774>>, <<8646, 26690>>,
    <<63209, 27802>>, <<26380, 40033>>, <<43987, 35056>>, <<27217, 41170>>, <<55380, 12136>>,
    <<38415, 42792>>, <<43857, 13219>>, <<28399, 2924>>, <<4986, 15332>>, <<47675, 61520>>, <<32507, 10904>>,
    <<41457, 25885>>, <<14767, 374>>, <<26314, 22846>>, <<33347, 3720>>, <<36078, 34329>>, <<17775, 40884>>,
    <<32132, 42435>>, <<15243, 24254>>, <<57455, 30168>>, <<34241, 8307>>, <<16410, 17567>>,
    <<22209, 27302>>, <<20179, 43618>>, <<13887, 30470>>, <<7166, 57202>>, <<17051, 573>>, <<14288, 55076>>,
    <<53258, 4680>>, <<56079, 60115>>, <<18929, 49307>>, <<1875, 29385>>, <<32921, 7035>>, <<9684, 31192>>,
    <<63208, 57079>>, <<58366, 20506>>, <<46713, 19515>>, <<38764, 57533>>, <<1216, 1722>>, <<49577, 20406>>,
    <<16543, 24772>>, <<24156, 40642>>, <<6506, 9315>>, <<26875, 28591>>, <<15980, 21429>>, <<4921, 45803>>,
    <<15186, 60527>>, <<28156, 20767>>, <<39728, 38188>>, <<52353, 17732>>, <<44894, 48393>>,
    <<48867, 53252>>, <<56883, 19197>>, <<26127, 10247>>, <<6446, 19379>>, <<49355, 43095>>,
    <<17864, 29711>>, <<53771, 24377>>, <<47571, 64475>>, <<21881, 49341>>, <<6752, 12810>>, <<54945, 198>>,
    <<16428, 29305>>, <<26527, 9726>>, <<64287, 41932>>, <<36517, 59896>>, <<56114, 8952>>, <<15477, 5855>>,
    <<64865, 27413>>, <<12112, 7880>>, <<44293, 21163>>, <<12861, 46586>>, <<64803, 34656>>,
    <<21297, 31560>>, <<15872, 57218>>, <<40540, 22459>>, <<51823, 36000>>, <<6791, 22062>>,
    <<57111, 27099>>, <<54594, 43254>>, <<10366, 65475>>, <<44135, 12998>>, <<35919, 21875>>,
    <<26971, 10160>>, <<48074, 22728>>, <<57855, 41821>>, <<47344, 4512>>, <<4346, 15768>>, <<64801, 33720>>,
    <<19196, 46444>>, <<11729, 54107>>, <<39507, 58489>>, <<46840, 17765>>, <<53902, 18876>>,
    <<19451, 38800>>, <<57821, 62170>>, <<42187, 32307>>, <<25339, 4929>>, <<52964, 50920>>,
    <<61216, 51930>>, <<13943, 19457>>, <<53374, 40702>>, <<11249, 8116>>, <<38363, 55885>>,
    <<44688, 37272>>, <<60077, 36465>>, <<27539, 54688>>, <<53390, 53712>>, <<44999, 9696>>,
    <<36412, 23343>>, <<36469, 38071>>, <<36854, 58107>>, <<61970, 11108>>, <<34952, 47122>>,
    <<36877, 61468>>, <<20397, 24224>>, <<26767, 49948>>, <<53711, 61841>>, <<45992, 49581>>,
    <<12079, 8728>>, <<48654, 6007>>, <<60021, 11774>>, <<35586, 8097>>, <<58784, 52239>>, <<46447, 29928>>,
    <<6316, 62422>>, <<52873, 58009>>, <<46248, 20448>>, <<64787, 57527>>, <<31940, 15233>>,
    <<53933, 43225>>, <<5727, 41574>>, <<32917, 30469>>, <<37836, 29460>>, <<8474, 5239>>, <<59053, 8293>>,
    <<30645, 64134>>, <<51028, 17141>>, <<64413, 13775>>, <<60365, 44812>>, <<31550, 35232>>,
    <<54849, 7123>>, <<44574, 32329>>, <<37, 3629>>, <<8305, 45918>>, <<8808, 187>>, <<22456, 57519>>,
    <<9316, 13979>>, <<61449, 47390>>, <<21859, 37149>>, <<23007, 42666>>, <<30913, 17289>>,
    <<55642, 21375>>, <<8317, 23458>>, <<741, 47557>>, <<33574, 886>>, <<25237, 53161>>, <<4552, 6504>>,
    <<20083, 19009>>, <<45895, 11722>>, <<31508, 43338>>, <<6993, 82>>, <<39507, 10517>>, <<54799, 22335>>,
    <<48283, 50916>>, <<11104, 42102>>, <<33254, 29696>>, <<2234, 28597>>, <<22299, 59679>>,
    <<62102, 60523>>, <<10765, 55573>>, <<46691, 25889>>, <<59321, 63926>>, <<65332, 1326>>,
    <<50565, 22116>>, <<21424, 11613>>, <<43423, 36769>>, <<2234, 18329>>, <<28293, 1898>>, <<19322, 28905>>,
    <<46515, 10564>>, <<56181, 2350>>, <<50201, 9763>>, <<44398, 42672>>, <<18855, 57213>>, <<40174, 24760>>,
    <<36845, 45670>>, <<60586, 35953>>, <<27034, 6143>>, <<22116, 21100>>, <<49841, 40673>>, <<6454, 677>>,
    <<29961, 19497>>, <<41049, 4928>>, <<58392, 14910>>, <<16212, 39066>>, <<23362, 40293>>,
    <<27535, 58582>>, <<39415, 16342>>, <<41426, 39943>>, <<61416, 12533>>, <<19757, 14566>>,
    <<61477, 24001>>, <<19677, 8326>>, <<33904, 60198>>, <<25474, 59846>>, <<542, 52318>>, <<2408, 27455>>,
    <<16058, 61385>>, <<15511, 6164>>, <<27498, 28833>>, <<26751, 13700>>, <<21152, 57990>>,
    <<47004, 21253>>, <<43600, 1847>>, <<15879, 33820>>, <<32734, 44636>>, <<36477, 17644>>,
    <<22294, 62136>>, <<45114, 55863>>, <<61520, 3085>>, <<61468, 7940>>, <<512, 46079>>, <<44556, 62746>>,
    <<15541, 29874>>, <<9603, 31320>>, <<56329, 8637>>, <<53649, 5113>>, <<31913, 12278>>, <<37938, 18291>>,
    <<8949, 18177>>, <<15077, 58753>>, <<14274, 56028>>, <<51381, 30260>>, <<39667, 56743>>,
    <<43332, 24902>>, <<4048, 782>>, <<60616, 51006>>, <<42101, 7745>>, <<57912, 52633>>, <<15338, 3631>>,
    <<12928, 48033>>, <<6206, 45873>>, <<20052, 35640>>, <<20333, 47368>>, <<28482, 3331>>, <<62986, 1215>>,
    <<11448, 4752>>, <<9367, 31865>>, <<22137, 45170>>, <<48303, 35247>>, <<56986, 30495>>, <<55699, 2064>>,
    <<45963, 44562>>, <<56527, 16174>>, <<21778, 29215>>, <<11883, 28964>>, <<20506, 56806>>,
    <<40836, 52615>>, <<31320, 18200>>, <<29704, 55831>>, <<48287, 39612>>, <<59723, 32140>>,
    <<60538, 60474>>, <<56197, 7674>>, <<25353, 17254>>, <<50276, 50130>>, <<61212, 6215>>, <<12821, 55560>>,
    <<56643, 15159>>, <<9410, 47638>>, <<4769, 19779>>, <<10853, 50257>>, <<20628, 2>>, <<4922, 58589>>,
    <<29151, 63646>>, <<4145, 20053>>, <<33196, 30678>>, <<24337, 6555>>, <<1077, 22257>>, <<55203, 51051>>,
    <<15377, 6203>>, <<22820, 42249>>, <<62095, 59117>>, <<38897, 64506>>, <<40634, 48940>>, <<7701, 15470>>,
    <<34531, 17776>>, <<60137, 28593>>, <<34318, 24074>>, <<23102, 10931>>, <<30495, 59164>>,
    <<20029, 1786>>, <<10597, 56505>>, <<39399, 7439>>, <<32830, 35286>>, <<21094, 51237>>, <<11852, 51576>>,
    <<39952, 45930>>, <<50709, 3770>>, <<38114, 60024>>, <<42492, 15443>>, <<7690, 11764>>, <<62199, 20135>>,
    <<13853, 11069>>, <<6457, 9743>>, <<6594, 31072>>, <<21027, 42760>>, <<63251, 4790>>, <<60333, 65134>>,
    <<60099, 8038>>, <<58300, 17813>>, <<42619, 51331>>, <<45439, 14289>>, <<396, 65320>>, <<49970, 56815>>,
    <<48748, 23205>>, <<25944, 8581>>, <<26795, 38914>>, <<61134, 42255>>, <<56111, 38203>>,
    <<10991, 32173>>, <<23406, 12164>>, <<5409, 46632>>, <<10503, 24944>>, <<60637, 18293>>, <<24991, 5392>>,
    <<5068, 43056>>, <<60257, 48534>>, <<820, 65054>>, <<43523, 25551>>, <<46451, 23696>>, <<19568, 41529>>,
    <<54686, 40459>>, <<52138, 56852>>, <<61132, 34492>>, <<24674, 11431>>, <<40107, 23723>>,
    <<45811, 33902>>, <<25739, 7855>>, <<6589, 61642>>, <<40995, 27065>>, <<25946, 47952>>, <<16488, 23090>>,
    <<15402, 46259>>, <<12702, 59861>>, <<49185, 47351>>, <<39764, 2841>>, <<34655, 41113>>,
    <<38391, 39294>>, <<25149, 32168>>, <<63543, 34970>>, <<38883, 11639>>, <<4589, 37727>>, <<5736, 4737>>,
    <<3637, 34857>>, <<51174, 8150>>, <<38622, 57249>>, <<30808, 47769>>, <<22517, 33957>>, <<6946, 29283>>,
    <<39811, 50175>>, <<6850, 18070>>, <<52659, 2795>>, <<21294, 12372>>, <<36825, 18660>>, <<28092, 12584>>,
    <<22763, 62191>>, <<13510, 65514>>, <<65064, 60769>>, <<61052, 15475>>, <<23882, 5337>>,
    <<59492, 47075>>, <<16912, 23828>>, <<8254, 5088>>, <<17902, 58038>>, <<41898, 44010>>, <<56172, 20245>>,
    <<64203, 20432>>, <<51010, 62530>>, <<61290, 48053>>, <<25935, 15133>>, <<16845, 8453>>,
    <<55326, 31134>>, <<34437, 19911>>, <<58443, 18282>>, <<15745, 25168>>, <<53090, 41458>>,
    <<23437, 9798>>, <<64648, 33696>>, <<49607, 46755>>, <<32533, 9411>>, <<27083, 29842>>, <<18308, 35339>>,
    <<22162, 45701>>, <<2395, 48896>>, <<44313, 18589>>, <<5218, 45428>>, <<9090, 3584>>, <<22594, 36138>>,
    <<3157, 62954>>, <<7597, 62526>>, <<9023, 28769>>, <<13170, 61586>>, <<36243, 32321>>, <<54879, 60657>>,
    <<27682, 15323>>, <<31966, 14169>>, <<52206, 29792>>, <<16517, 62119>>, <<52855, 12910>>,
    <<42503, 32900>>, <<6648, 20638>>, <<59631, 55381>>, <<25049, 38709>>, <<43369, 42922>>, <<50444, 1730>>,
    <<23044, 44028>>, <<32779, 51932>>, <<40516, 31278>>, <<49989, 13444>>, <<64981, 26373>>,
    <<3614, 40649>>, <<56179, 56275>>, <<4181, 35021>>, <<26463, 55929>>, <<58215, 17216>>, <<50628, 13413>>,
    <<28990, 14552>>, <<15656, 63646>>, <<61805, 65312>>, <<5438, 8679>>, <<36784, 15690>>, <<59107, 40747>>,
    <<56195, 44535>>, <<59709, 23144>>, <<38017, 16631>>, <<63052, 9756>>, <<37993, 10548>>, <<16661, 8439>>,
    <<30210, 54519>>, <<48372, 27438>>, <<54434, 104>>, <<54280, 9329>>, <<13088, 62570>>, <<17335, 54455>>,
    <<20480, 25007>>, <<7737, 63022>>, <<38692, 17734>>, <<5153, 20340>>, <<49035, 34880>>, <<19861, 64541>>,
    <<38581, 37295>>, <<28916, 56787>>, <<26272, 12101>>, <<49084, 2540>>, <<957, 38789>>, <<32684, 28112>>,
    <<12747, 34052>>, <<38635, 10163>>, <<22013, 14657>>, <<55845, 18406>>, <<43978, 2714>>,
    <<10320, 30757>>, <<21252, 10740>>, <<2604, 34522>>, <<59830, 28155>>, <<26844, 5218>>, <<55112, 26880>>,
    <<26638, 49316>>, <<10145, 36334>>, <<20287, 65186>>, <<59527, 44428>>, <<46476, 57350>>,
    <<31476, 54966>>, <<43726, 7804>>, <<54071, 24556>>, <<52856, 41881>>, <<16491, 10818>>, <<8446, 40501>>,
    <<55795, 34233>>, <<60985, 55211>>, <<15122, 20107>>, <<7625, 64247>>, <<19309, 6230>>, <<9891, 26161>>,
    <<60131, 38834>>, <<14958, 64116>>, <<56667, 17202>>, <<26689, 59383>>, <<51832, 8443>>,
    <<64266, 62798>>, <<55550, 45975>>, <<17728, 22188>>, <<47688, 38183>>, <<21843, 14906>>,
    <<8323, 36231>>, <<65131, 43447>>, <<53398, 38219>>, <<21928, 26556>>, <<41237, 39512>>,
    <<52393, 10595>>, <<39393, 56115>>, <<42538, 19030>>, <<16177, 9721>>, <<24308, 32284>>,
    <<36905, 12668>>, <<65016, 59394>>, <<1063, 12144>>, <<32955, 5468>>, <<1320, 11491>>, <<38337, 5448>>,
    <<58566, 27938>>, <<18625, 4927>>, <<50959, 34524>>, <<2041, 51694>>, <<16644, 7951>>, <<16455, 31140>>,
    <<23944, 28183>>, <<12895, 20971>>, <<54683, 49361>>, <<62140, 49551>>, <<16657, 13668>>,
    <<9595, 30772>>, <<24618, 40032>>, <<57336, 59555>>, <<8035, 27675>>, <<3602, 46274>>, <<737, 12958>>,
    <<44902, 20433>>, <<51921, 33045>>, <<27427, 38368>>, <<13118, 37601>>, <<15140, 2914>>,
    <<61118, 47394>>, <<34226, 41486>>, <<59066, 3481>>, <<56946, 3212>>, <<11682, 63272>>, <<53266, 30789>>,
    <<38327, 38141>>, <<25725, 2146>>, <<59340, 62960>>, <<21577, 41839>>, <<34685, 18682>>,
    <<50077, 64807>>, <<62270, 36126>>, <<2631, 25409>>, <<39214, 65396>>, <<14959, 28331>>,
    <<62712, 64823>>, <<43026, 56416>>, <<41451, 56824>>, <<39195, 57676>>, <<56174, 27405>>,
    <<50811, 21776>>, <<28007, 11319>>, <<10085, 54331>>, <<56528, 59396>>, <<61737, 3527>>,
    <<52224, 65443>>, <<46393, 3986>>, <<26895, 60683>>, <<26235, 40955>>, <<52955, 32156>>,
    <<41105, 53003>>, <<55573, 24227>>, <<47891, 12168>>, <<20827, 44324>>, <<31636, 31167>>,
    <<30267, 55019>>, <<14137, 11955>>, <<52241, 22905>>, <<32806, 58007>>, <<62510, 12589>>,
    <<26690, 44455>>, <<50794, 11067>>, <<4725, 19660>>, <<30766, 61724>>, <<27154, 16951>>,
    <<46994, 20967>>, <<1697, 48102>>, <<19451, 25424>>, <<6763, 4120>>, <<4554, 60922>>, <<15653, 48600>>,
    <<58081, 50121>>, <<17474, 5721>>, <<2578, 4998>>, <<55564, 60526>>, <<54699, 59946>>, <<25775, 26446>>,
    <<55942, 43103>>, <<48831, 59784>>, <<25828, 50174>>, <<40380, 32855>>, <<61687, 49286>>,
    <<24696, 31736>>, <<24579, 24653>>, <<53757, 33606>>, <<63032, 8112>>, <<30533, 44548>>,
    <<55094, 64716>>, <<33602, 27443>>, <<61470, 43889>>, <<45184, 16775>>, <<15360, 24159>>,
    <<30624, 22462>>, <<48616, 44580>>, <<21830, 17049>>, <<48984, 11873>>, <<20056, 62607>>,
    <<62173, 64930>>, <<62580, 61240>>, <<34697, 48578>>, <<21350, 63939>>, <<51379, 36468>>,
    <<46197, 62037>>, <<18172, 55737>>, <<31467, 9825>>, <<35613, 57220>>, <<33898, 3705>>, <<37215, 38370>>,
    <<18030, 22926>>, <<8372, 22384>>, <<36053, 21905>>, <<51458, 56908>>, <<47371, 44257>>, <<48002, 1488>>,
    <<4520, 25160>>, <<30068, 43422>>, <<46975, 6582>>, <<57513, 56329>>, <<26157, 2465>>, <<50226, 17971>>,
    <<59482, 7938>>, <<2544, 48780>>, <<19097, 40997>>, <<7534, 65040>>, <<6841, 15645>>, <<2981, 42207>>,
    <<41350, 61967>>, <<10344, 61801>>, <<56503, 55939>>, <<22329, 1790>>, <<41442, 52891>>,
    <<20429, 32594>>, <<20497, 24065>>, <<42758, 33786>>, <<40962, 46532>>, <<3558, 53287>>,
    <<39672, 35879>>, <<30527, 34369>>, <<50016, 19462>>, <<25000, 1717>>, <<61463, 31272>>,
    <<49397, 34528>>, <<96, 22698>>, <<12508, 32098>>, <<4582, 40663>>, <<9016, 60003>>, <<21442, 56724>>,
    <<49858, 5684>>, <<48075, 61014>>, <<37052, 46814>>, <<60412, 32161>>, <<52825, 7542>>, <<28421, 58377>>,
    <<19324, 392>>, <<14706, 2621>>, <<31890, 31780>>, <<34531, 29279>>, <<29261, 40377>>, <<6849, 23476>>,
    <<54174, 47356>>, <<60756, 21880>>, <<2300, 42421>>, <<55357, 31955>>, <<19885, 4036>>, <<7760, 61278>>,
    <<45409, 59128>>, <<41605, 5337>>, <<27729, 4924>>, <<28629, 51175>>, <<22241, 20164>>, <<13866, 49102>>,
    <<56774, 51255>>, <<55194, 12852>>, <<37475, 33298>>, <<26382, 64142>>, <<16480, 224>>, <<14905, 52791>>,
    <<54266, 62927>>, <<43970, 30519>>, <<23237, 11547>>, <<23728, 26526>>, <<20387, 14146>>,
    <<54146, 10048>>, <<39356, 39870>>, <<54545, 36509>>, <<48911, 29461>>, <<54829, 7294>>,
    <<50944, 50299>>, <<46988, 7019>>, <<8609, 36933>>, <<45678, 45502>>, <<27190, 28340>>, <<22344, 43823>>,
    <<48276, 28281>>, <<50851, 30418>>, <<25929, 49864>>, <<21263, 63726>>, <<18061, 56957>>,
    <<54643, 2589>>, <<19664, 19910>>, <<10553, 48091>>, <<43450, 18000>>, <<44181, 9960>>, <<48734, 58116>>,
    <<41466, 54768>>, <<27181, 20890>>, <<25583, 36066>>, <<39558, 60962>>, <<49289, 49848>>,
    <<17188, 12022>>, <<42270, 938>>, <<40178, 53412>>, <<33728, 25018>>, <<39913, 27213>>, <<36837, 5456>>,
    <<47716, 23510>>, <<10278, 41721>>, <<42810, 15073>>, <<19369, 38278>>, <<61269, 25321>>,
    <<50991, 61395>>, <<63314, 63450>>, <<16132, 28521>>, <<30714, 2649>>, <<32996, 43285>>,
    <<34736, 34305>>, <<39689, 59053>>, <<15166, 58771>>, <<59792, 64858>>, <<40500, 55191>>,
    <<11504, 47065>>, <<555, 35665>>, <<38613, 44090>>, <<381, 42621>>, <<53711, 16086>>, <<31869, 11560>>,
    <<8095, 9679>>, <<44530, 47259>>, <<23254, 46194>>, <<23176, 62796>>, <<57385, 44145>>, <<57369, 42470>>,
    <<18352, 44285>>, <<60819, 64155>>, <<59603, 50317>>, <<10299, 22476>>, <<63701, 26153>>,
    <<30995, 11816>>, <<30815, 401>>, <<60789, 24661>>, <<63382, 3652>>, <<58323, 24204>>, <<5381, 28116>>,
    <<35060, 28090>>, <<929, 24869>>, <<1380, 61629>>, <<50155, 40469>>, <<15504, 22434>>, <<38695, 6892>>,
    <<43322, 1834>>, <<6975, 28059>>, <<7779, 8693>>, <<62876, 26363>>, <<9948, 62233>>, <<30003, 55592>>,
    <<45397, 65013>>, <<854, 13442>>, <<35514, 15547>>, <<10321, 30481>>, <<49674, 55800>>, <<43980, 20839>>,
    <<52397, 37471>>, <<19944, 5969>>, <<14384, 56462>>, <<14237, 22626>>, <<37664, 63889>>,
    <<60026, 37058>>, <<64318, 31694>>, <<20769, 52836>>, <<30543, 48690>>, <<43190, 58238>>,
    <<49961, 15686>>, <<18654, 21353>>, <<25619, 59008>>, <<41646, 2064>>, <<56685, 45604>>,
    <<27013, 11773>>, <<2311, 8550>>, <<45978, 17930>>, <<25669, 49373>>, <<22636, 57039>>, <<7200, 51374>>,
    <<23486, 63453>>, <<7000, 36160>>, <<52434, 383>>, <<27572, 58299>>, <<56738, 27262>>, <<14937, 65349>>,
    <<15925, 2628>>, <<48308, 52693>>, <<29418, 52904>>, <<64100, 33979>>, <<36198, 4782>>, <<48956, 28487>>,
    <<53915, 58467>>, <<21551, 23966>>, <<44738, 30491>>, <<63054, 25456>>, <<29710, 3469>>, <<59227, 4951>>,
    <<63602, 5745>>, <<44883, 32093>>, <<16448, 51976>>, <<20148, 58060>>, <<13522, 18026>>, <<277, 44932>>,
    <<57776, 1064>>, <<38296, 14877>>, <<1720, 40884>>, <<52846, 41032>>, <<28479, 15234>>, <<13600, 43906>>,
    <<282, 7499>>, <<10098, 10232>>, <<24853, 24753>>, <<59283, 16348>>, <<47930, 31019>>, <<13381, 9661>>,
    <<41096, 14817>>, <<20942, 31051>>, <<12082, 51639>>, <<40991, 47817>>, <<57372, 51326>>,
    <<48327, 53750>>, <<52993, 4547>>, <<41448, 43719>>, <<6800, 34633>>, <<54351, 48538>>, <<53466, 57035>>,
    <<54538, 55864>>, <<825, 49962>>, <<50833, 13927>>, <<36345, 12668>>, <<57521, 11087>>, <<63390, 22967>>,
    <<17397, 47930>>, <<62165, 6655>>, <<10201, 17820>>, <<49047, 8748>>, <<5606, 64554>>, <<3985, 64625>>,
    <<39828, 5413>>, <<64229, 37729>>, <<52918, 40171>>, <<49832, 25689>>, <<4794, 43217>>, <<46785, 1886>>,
    <<58117, 27148>>, <<4306, 20581>>, <<51971, 42050>>, <<57580, 28174>>, <<5784, 56123>>, <<19608, 41150>>,
    <<12920, 59748>>, <<40735, 38194>>, <<57555, 37599>>, <<54176, 13355>>, <<35185, 61982>>,
    <<6922, 29761>>, <<19363, 13452>>, <<50622, 28960>>, <<50038, 13016>>, <<57141, 40845>>,
    <<39833, 12078>>, <<58891, 28487>>, <<4067, 61725>>, <<58700, 55892>>, <<7898, 55441>>, <<52834, 31183>>,
    <<52542, 32367>>, <<5656, 45414>>, <<64812, 7429>>, <<33935, 53957>>, <<63227, 8857>>, <<62755, 62295>>,
    <<42546, 30243>>, <<37800, 13617>>, <<22220, 52482>>, <<44272, 33122>>, <<23157, 60341>>,
    <<28182, 13975>>, <<35026, 29644>>, <<56982, 25234>>, <<33209, 18896>>, <<19536, 36891>>,
    <<29126, 22036>>, <<59078, 51133>>, <<12922, 5130>>, <<17889, 53254>>, <<50162, 31642>>,
    <<51626, 21501>>, <<25256, 3840>>, <<47909, 49122>>, <<13757, 54006>>, <<28946, 26885>>, <<45572, 546>>,
    <<46795, 53116>>, <<52598, 39979>>, <<21265, 16064>>, <<5696, 58323>>, <<14507, 48480>>, <<9543, 44528>>,
    <<47672, 8348>>, <<63302, 52854>>, <<30639, 41413>>, <<8309, 24672>>, <<34251, 65102>>, <<35560, 36312>>,
    <<31402, 63920>>, <<19705, 43646>>, <<6472, 49756>>, <<763, 35468>>, <<451, 27364>>, <<55019, 57849>>,
    <<37076, 63593>>, <<42588, 56992>>, <<16137, 9517>>, <<49672, 59039>>, <<46926, 24882>>,
    <<52855, 57947>>, <<22415, 57315>>, <<15043, 29414>>>>
=============================================================================
