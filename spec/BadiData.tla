---- MODULE BadiData ----
EXTENDS Integers
(* Reference tables; generated once by tools/gen_data.py and committed.     *)
(* YSTab[y + 1844]: ordinal of the first day of year y, y in -1843..1162.    *)
(* EqTab[y + 261]: <<d, q, s>> for y in -260..1162: Tehran civil day (as an  *)
(*   ordinal) of the vernal equinox, minute of that day of the equinox and   *)
(*   minute of that day of sunset in Tehran, computed independently.         *)
(* UhjTab[y - 171]: ordinal of the evening on which the published Naw-Ruz of *)
(*   year y, 172..221, begins.                                               *)
YSTab == <<
    -287, 78, 444, 809, 1174, 1539, 1905, 2270, 2635, 3000, 3366, 3731,
    4096, 4461, 4827, 5192, 5557, 5922, 6288, 6653, 7018, 7383, 7749, 8114,
    8479, 8844, 9210, 9575, 9940, 10305, 10670, 11036, 11401, 11766, 12131, 12497,
    12862, 13227, 13592, 13958, 14323, 14688, 15053, 15419, 15784, 16149, 16514, 16880,
    17245, 17610, 17975, 18341, 18706, 19071, 19436, 19802, 20167, 20532, 20897, 21263,
    21628, 21993, 22358, 22723, 23089, 23454, 23819, 24184, 24550, 24915, 25280, 25645,
    26011, 26376, 26741, 27106, 27472, 27837, 28202, 28567, 28933, 29298, 29663, 30028,
    30394, 30759, 31124, 31489, 31855, 32220, 32585, 32950, 33316, 33681, 34046, 34411,
    34776, 35142, 35507, 35872, 36237, 36603, 36968, 37333, 37698, 38064, 38429, 38794,
    39159, 39525, 39890, 40255, 40620, 40986, 41351, 41716, 42081, 42447, 42812, 43177,
    43542, 43908, 44273, 44638, 45003, 45369, 45734, 46099, 46464, 46829, 47195, 47560,
    47925, 48290, 48656, 49021, 49386, 49751, 50117, 50482, 50847, 51212, 51578, 51943,
    52308, 52673, 53039, 53404, 53769, 54134, 54500, 54865, 55230, 55595, 55961, 56326,
    56691, 57056, 57422, 57787, 58152, 58517, 58882, 59248, 59613, 59978, 60343, 60709,
    61074, 61439, 61804, 62170, 62535, 62900, 63265, 63631, 63996, 64361, 64726, 65092,
    65457, 65822, 66187, 66553, 66918, 67283, 67648, 68014, 68379, 68744, 69109, 69475,
    69840, 70205, 70570, 70935, 71301, 71666, 72031, 72396, 72762, 73127, 73492, 73857,
    74223, 74588, 74953, 75318, 75684, 76049, 76414, 76779, 77145, 77510, 77875, 78240,
    78606, 78971, 79336, 79701, 80067, 80432, 80797, 81162, 81528, 81893, 82258, 82623,
    82988, 83354, 83719, 84084, 84449, 84815, 85180, 85545, 85910, 86276, 86641, 87006,
    87371, 87737, 88102, 88467, 88832, 89198, 89563, 89928, 90293, 90659, 91024, 91389,
    91754, 92120, 92485, 92850, 93215, 93581, 93946, 94311, 94676, 95041, 95407, 95772,
    96137, 96502, 96868, 97233, 97598, 97963, 98329, 98694, 99059, 99424, 99790, 100155,
    100520, 100885, 101251, 101616, 101981, 102346, 102712, 103077, 103442, 103807, 104173, 104538,
    104903, 105268, 105634, 105999, 106364, 106729, 107094, 107460, 107825, 108190, 108555, 108921,
    109286, 109651, 110016, 110382, 110747, 111112, 111477, 111843, 112208, 112573, 112938, 113304,
    113669, 114034, 114399, 114765, 115130, 115495, 115860, 116226, 116591, 116956, 117321, 117687,
    118052, 118417, 118782, 119147, 119513, 119878, 120243, 120608, 120974, 121339, 121704, 122069,
    122435, 122800, 123165, 123530, 123896, 124261, 124626, 124991, 125357, 125722, 126087, 126452,
    126818, 127183, 127548, 127913, 128279, 128644, 129009, 129374, 129740, 130105, 130470, 130835,
    131200, 131566, 131931, 132296, 132661, 133027, 133392, 133757, 134122, 134488, 134853, 135218,
    135583, 135949, 136314, 136679, 137044, 137410, 137775, 138140, 138505, 138871, 139236, 139601,
    139966, 140332, 140697, 141062, 141427, 141793, 142158, 142523, 142888, 143253, 143619, 143984,
    144349, 144714, 145080, 145445, 145810, 146175, 146541, 146906, 147271, 147636, 148002, 148367,
    148732, 149097, 149463, 149828, 150193, 150558, 150924, 151289, 151654, 152019, 152385, 152750,
    153115, 153480, 153846, 154211, 154576, 154941, 155307, 155672, 156037, 156402, 156767, 157133,
    157498, 157863, 158228, 158594, 158959, 159324, 159689, 160055, 160420, 160785, 161150, 161516,
    161881, 162246, 162611, 162977, 163342, 163707, 164072, 164438, 164803, 165168, 165533, 165899,
    166264, 166629, 166994, 167360, 167725, 168090, 168455, 168820, 169186, 169551, 169916, 170281,
    170647, 171012, 171377, 171742, 172108, 172473, 172838, 173203, 173569, 173934, 174299, 174664,
    175030, 175395, 175760, 176125, 176491, 176856, 177221, 177586, 177952, 178317, 178682, 179047,
    179413, 179778, 180143, 180508, 180873, 181239, 181604, 181969, 182334, 182700, 183065, 183430,
    183795, 184161, 184526, 184891, 185256, 185622, 185987, 186352, 186717, 187083, 187448, 187813,
    188178, 188544, 188909, 189274, 189639, 190005, 190370, 190735, 191100, 191466, 191831, 192196,
    192561, 192926, 193292, 193657, 194022, 194387, 194753, 195118, 195483, 195848, 196214, 196579,
    196944, 197309, 197675, 198040, 198405, 198770, 199136, 199501, 199866, 200231, 200597, 200962,
    201327, 201692, 202058, 202423, 202788, 203153, 203519, 203884, 204249, 204614, 204979, 205345,
    205710, 206075, 206440, 206806, 207171, 207536, 207901, 208267, 208632, 208997, 209362, 209728,
    210093, 210458, 210823, 211189, 211554, 211919, 212284, 212650, 213015, 213380, 213745, 214111,
    214476, 214841, 215206, 215572, 215937, 216302, 216667, 217032, 217398, 217763, 218128, 218493,
    218859, 219224, 219589, 219954, 220320, 220685, 221050, 221415, 221781, 222146, 222511, 222876,
    223242, 223607, 223972, 224337, 224703, 225068, 225433, 225798, 226164, 226529, 226894, 227259,
    227625, 227990, 228355, 228720, 229085, 229451, 229816, 230181, 230546, 230912, 231277, 231642,
    232007, 232373, 232738, 233103, 233468, 233834, 234199, 234564, 234929, 235295, 235660, 236025,
    236390, 236756, 237121, 237486, 237851, 238217, 238582, 238947, 239312, 239678, 240043, 240408,
    240773, 241138, 241504, 241869, 242234, 242599, 242965, 243330, 243695, 244060, 244426, 244791,
    245156, 245521, 245887, 246252, 246617, 246982, 247348, 247713, 248078, 248443, 248809, 249174,
    249539, 249904, 250270, 250635, 251000, 251365, 251731, 252096, 252461, 252826, 253191, 253557,
    253922, 254287, 254652, 255018, 255383, 255748, 256113, 256479, 256844, 257209, 257574, 257940,
    258305, 258670, 259035, 259401, 259766, 260131, 260496, 260862, 261227, 261592, 261957, 262323,
    262688, 263053, 263418, 263784, 264149, 264514, 264879, 265244, 265610, 265975, 266340, 266705,
    267071, 267436, 267801, 268166, 268532, 268897, 269262, 269627, 269993, 270358, 270723, 271088,
    271454, 271819, 272184, 272549, 272915, 273280, 273645, 274010, 274376, 274741, 275106, 275471,
    275837, 276202, 276567, 276932, 277297, 277663, 278028, 278393, 278758, 279124, 279489, 279854,
    280219, 280585, 280950, 281315, 281680, 282046, 282411, 282776, 283141, 283507, 283872, 284237,
    284602, 284968, 285333, 285698, 286063, 286429, 286794, 287159, 287524, 287890, 288255, 288620,
    288985, 289350, 289716, 290081, 290446, 290811, 291177, 291542, 291907, 292272, 292638, 293003,
    293368, 293733, 294099, 294464, 294829, 295194, 295560, 295925, 296290, 296655, 297021, 297386,
    297751, 298116, 298482, 298847, 299212, 299577, 299943, 300308, 300673, 301038, 301403, 301769,
    302134, 302499, 302864, 303230, 303595, 303960, 304325, 304691, 305056, 305421, 305786, 306152,
    306517, 306882, 307247, 307613, 307978, 308343, 308708, 309074, 309439, 309804, 310169, 310535,
    310900, 311265, 311630, 311996, 312361, 312726, 313091, 313457, 313822, 314187, 314552, 314917,
    315283, 315648, 316013, 316378, 316744, 317109, 317474, 317839, 318205, 318570, 318935, 319300,
    319666, 320031, 320396, 320761, 321127, 321492, 321857, 322222, 322588, 322953, 323318, 323683,
    324049, 324414, 324779, 325144, 325510, 325875, 326240, 326605, 326970, 327336, 327701, 328066,
    328431, 328797, 329162, 329527, 329892, 330258, 330623, 330988, 331353, 331719, 332084, 332449,
    332814, 333180, 333545, 333910, 334275, 334641, 335006, 335371, 335736, 336102, 336467, 336832,
    337197, 337563, 337928, 338293, 338658, 339023, 339389, 339754, 340119, 340484, 340850, 341215,
    341580, 341945, 342311, 342676, 343041, 343406, 343772, 344137, 344502, 344867, 345233, 345598,
    345963, 346328, 346694, 347059, 347424, 347789, 348155, 348520, 348885, 349250, 349616, 349981,
    350346, 350711, 351076, 351442, 351807, 352172, 352537, 352903, 353268, 353633, 353998, 354364,
    354729, 355094, 355459, 355825, 356190, 356555, 356920, 357286, 357651, 358016, 358381, 358747,
    359112, 359477, 359842, 360208, 360573, 360938, 361303, 361669, 362034, 362399, 362764, 363129,
    363495, 363860, 364225, 364590, 364956, 365321, 365686, 366051, 366417, 366782, 367147, 367512,
    367878, 368243, 368608, 368973, 369339, 369704, 370069, 370434, 370800, 371165, 371530, 371895,
    372261, 372626, 372991, 373356, 373722, 374087, 374452, 374817, 375182, 375548, 375913, 376278,
    376643, 377009, 377374, 377739, 378104, 378470, 378835, 379200, 379565, 379931, 380296, 380661,
    381026, 381392, 381757, 382122, 382487, 382853, 383218, 383583, 383948, 384314, 384679, 385044,
    385409, 385775, 386140, 386505, 386870, 387235, 387601, 387966, 388331, 388696, 389062, 389427,
    389792, 390157, 390523, 390888, 391253, 391618, 391984, 392349, 392714, 393079, 393445, 393810,
    394175, 394540, 394906, 395271, 395636, 396001, 396367, 396732, 397097, 397462, 397828, 398193,
    398558, 398923, 399288, 399654, 400019, 400384, 400749, 401115, 401480, 401845, 402210, 402576,
    402941, 403306, 403671, 404037, 404402, 404767, 405132, 405498, 405863, 406228, 406593, 406959,
    407324, 407689, 408054, 408420, 408785, 409150, 409515, 409881, 410246, 410611, 410976, 411341,
    411707, 412072, 412437, 412802, 413168, 413533, 413898, 414263, 414629, 414994, 415359, 415724,
    416090, 416455, 416820, 417185, 417551, 417916, 418281, 418646, 419012, 419377, 419742, 420107,
    420473, 420838, 421203, 421568, 421934, 422299, 422664, 423029, 423394, 423760, 424125, 424490,
    424855, 425221, 425586, 425951, 426316, 426682, 427047, 427412, 427777, 428143, 428508, 428873,
    429238, 429604, 429969, 430334, 430699, 431065, 431430, 431795, 432160, 432526, 432891, 433256,
    433621, 433987, 434352, 434717, 435082, 435447, 435813, 436178, 436543, 436908, 437274, 437639,
    438004, 438369, 438735, 439100, 439465, 439830, 440196, 440561, 440926, 441291, 441657, 442022,
    442387, 442752, 443118, 443483, 443848, 444213, 444579, 444944, 445309, 445674, 446040, 446405,
    446770, 447135, 447500, 447866, 448231, 448596, 448961, 449327, 449692, 450057, 450422, 450788,
    451153, 451518, 451883, 452249, 452614, 452979, 453344, 453710, 454075, 454440, 454805, 455171,
    455536, 455901, 456266, 456632, 456997, 457362, 457727, 458093, 458458, 458823, 459188, 459554,
    459919, 460284, 460649, 461014, 461380, 461745, 462110, 462475, 462841, 463206, 463571, 463936,
    464302, 464667, 465032, 465397, 465763, 466128, 466493, 466858, 467224, 467589, 467954, 468319,
    468685, 469050, 469415, 469780, 470146, 470511, 470876, 471241, 471607, 471972, 472337, 472702,
    473067, 473433, 473798, 474163, 474528, 474894, 475259, 475624, 475989, 476355, 476720, 477085,
    477450, 477816, 478181, 478546, 478911, 479277, 479642, 480007, 480372, 480738, 481103, 481468,
    481833, 482199, 482564, 482929, 483294, 483660, 484025, 484390, 484755, 485120, 485486, 485851,
    486216, 486581, 486947, 487312, 487677, 488042, 488408, 488773, 489138, 489503, 489869, 490234,
    490599, 490964, 491330, 491695, 492060, 492425, 492791, 493156, 493521, 493886, 494252, 494617,
    494982, 495347, 495713, 496078, 496443, 496808, 497173, 497539, 497904, 498269, 498634, 499000,
    499365, 499730, 500095, 500461, 500826, 501191, 501556, 501922, 502287, 502652, 503017, 503383,
    503748, 504113, 504478, 504844, 505209, 505574, 505939, 506305, 506670, 507035, 507400, 507766,
    508131, 508496, 508861, 509226, 509592, 509957, 510322, 510687, 511053, 511418, 511783, 512148,
    512514, 512879, 513244, 513609, 513975, 514340, 514705, 515070, 515436, 515801, 516166, 516531,
    516897, 517262, 517627, 517992, 518358, 518723, 519088, 519453, 519819, 520184, 520549, 520914,
    521279, 521645, 522010, 522375, 522740, 523106, 523471, 523836, 524201, 524567, 524932, 525297,
    525662, 526028, 526393, 526758, 527123, 527489, 527854, 528219, 528584, 528950, 529315, 529680,
    530045, 530411, 530776, 531141, 531506, 531872, 532237, 532602, 532967, 533332, 533698, 534063,
    534428, 534793, 535159, 535524, 535889, 536254, 536620, 536985, 537350, 537715, 538081, 538446,
    538811, 539176, 539542, 539907, 540272, 540637, 541003, 541368, 541733, 542098, 542464, 542829,
    543194, 543559, 543925, 544290, 544655, 545020, 545385, 545751, 546116, 546481, 546846, 547212,
    547577, 547942, 548307, 548673, 549038, 549403, 549768, 550134, 550499, 550864, 551229, 551595,
    551960, 552325, 552690, 553056, 553421, 553786, 554151, 554517, 554882, 555247, 555612, 555978,
    556343, 556708, 557073, 557438, 557804, 558169, 558534, 558899, 559265, 559630, 559995, 560360,
    560726, 561091, 561456, 561821, 562187, 562552, 562917, 563282, 563648, 564013, 564378, 564743,
    565109, 565474, 565839, 566204, 566570, 566935, 567300, 567665, 568031, 568396, 568761, 569126,
    569491, 569857, 570222, 570587, 570952, 571318, 571683, 572048, 572413, 572779, 573144, 573509,
    573874, 574240, 574605, 574970, 575335, 575701, 576066, 576431, 576796, 577162, 577527, 577892,
    578257, 578623, 578988, 579353, 579718, 580084, 580449, 580814, 581179, 581545, 581910, 582275,
    582640, 583006, 583371, 583736, 584101, 584466, 584832, 585197, 585562, 585927, 586293, 586658,
    587023, 587388, 587754, 588119, 588484, 588849, 589215, 589580, 589945, 590310, 590676, 591041,
    591406, 591771, 592137, 592502, 592867, 593232, 593598, 593963, 594328, 594693, 595059, 595424,
    595789, 596154, 596519, 596885, 597250, 597615, 597980, 598346, 598711, 599076, 599441, 599807,
    600172, 600537, 600902, 601268, 601633, 601998, 602363, 602729, 603094, 603459, 603824, 604190,
    604555, 604920, 605285, 605651, 606016, 606381, 606746, 607112, 607477, 607842, 608207, 608572,
    608938, 609303, 609668, 610033, 610399, 610764, 611129, 611494, 611860, 612225, 612590, 612955,
    613321, 613686, 614051, 614416, 614782, 615147, 615512, 615877, 616243, 616608, 616973, 617338,
    617704, 618069, 618434, 618799, 619165, 619530, 619895, 620260, 620625, 620991, 621356, 621721,
    622086, 622452, 622817, 623182, 623547, 623913, 624278, 624643, 625008, 625374, 625739, 626104,
    626469, 626835, 627200, 627565, 627930, 628296, 628661, 629026, 629391, 629757, 630122, 630487,
    630852, 631218, 631583, 631948, 632313, 632678, 633044, 633409, 633774, 634139, 634505, 634870,
    635235, 635600, 635966, 636331, 636696, 637061, 637427, 637792, 638157, 638522, 638888, 639253,
    639618, 639983, 640349, 640714, 641079, 641444, 641810, 642175, 642540, 642905, 643271, 643636,
    644001, 644366, 644731, 645097, 645462, 645827, 646192, 646558, 646923, 647288, 647653, 648019,
    648384, 648749, 649114, 649480, 649845, 650210, 650575, 650941, 651306, 651671, 652036, 652402,
    652767, 653132, 653497, 653863, 654228, 654593, 654958, 655324, 655689, 656054, 656419, 656784,
    657150, 657515, 657880, 658245, 658611, 658976, 659341, 659706, 660072, 660437, 660802, 661167,
    661533, 661898, 662263, 662628, 662994, 663359, 663724, 664089, 664455, 664820, 665185, 665550,
    665916, 666281, 666646, 667011, 667377, 667742, 668107, 668472, 668837, 669203, 669568, 669933,
    670298, 670664, 671029, 671394, 671759, 672125, 672490, 672855, 673220, 673586, 673951, 674316,
    674681, 675047, 675412, 675777, 676142, 676508, 676873, 677238, 677603, 677969, 678334, 678699,
    679064, 679430, 679795, 680160, 680525, 680890, 681256, 681621, 681986, 682351, 682717, 683082,
    683447, 683812, 684178, 684543, 684908, 685273, 685639, 686004, 686369, 686734, 687100, 687465,
    687830, 688195, 688561, 688926, 689291, 689656, 690022, 690387, 690752, 691117, 691483, 691848,
    692213, 692578, 692943, 693309, 693674, 694039, 694404, 694770, 695135, 695500, 695865, 696231,
    696596, 696961, 697326, 697692, 698057, 698422, 698787, 699153, 699518, 699883, 700248, 700614,
    700979, 701344, 701709, 702075, 702440, 702805, 703170, 703536, 703901, 704266, 704631, 704996,
    705362, 705727, 706092, 706457, 706823, 707188, 707553, 707918, 708284, 708649, 709014, 709379,
    709745, 710110, 710475, 710840, 711206, 711571, 711936, 712301, 712667, 713032, 713397, 713762,
    714128, 714493, 714858, 715223, 715588, 715954, 716319, 716684, 717049, 717415, 717780, 718145,
    718510, 718876, 719241, 719606, 719971, 720337, 720702, 721067, 721432, 721798, 722163, 722528,
    722893, 723259, 723624, 723989, 724354, 724720, 725085, 725450, 725815, 726181, 726546, 726911,
    727276, 727641, 728007, 728372, 728737, 729102, 729468, 729833, 730198, 730563, 730929, 731294,
    731659, 732024, 732390, 732755, 733120, 733485, 733851, 734216, 734581, 734946, 735312, 735677,
    736042, 736407, 736773, 737138, 737503, 737868, 738234, 738599, 738964, 739329, 739695, 740060,
    740425, 740790, 741155, 741521, 741886, 742251, 742616, 742982, 743347, 743712, 744077, 744443,
    744808, 745173, 745538, 745904, 746269, 746634, 746999, 747365, 747730, 748095, 748460, 748826,
    749191, 749556, 749921, 750287, 750652, 751017, 751382, 751747, 752113, 752478, 752843, 753208,
    753574, 753939, 754304, 754669, 755035, 755400, 755765, 756130, 756496, 756861, 757226, 757591,
    757957, 758322, 758687, 759052, 759418, 759783, 760148, 760513, 760879, 761244, 761609, 761974,
    762340, 762705, 763070, 763435, 763800, 764166, 764531, 764896, 765261, 765627, 765992, 766357,
    766722, 767088, 767453, 767818, 768183, 768549, 768914, 769279, 769644, 770010, 770375, 770740,
    771105, 771471, 771836, 772201, 772566, 772932, 773297, 773662, 774027, 774393, 774758, 775123,
    775488, 775853, 776219, 776584, 776949, 777314, 777680, 778045, 778410, 778775, 779141, 779506,
    779871, 780236, 780602, 780967, 781332, 781697, 782063, 782428, 782793, 783158, 783524, 783889,
    784254, 784619, 784985, 785350, 785715, 786080, 786446, 786811, 787176, 787541, 787906, 788272,
    788637, 789002, 789367, 789733, 790098, 790463, 790828, 791194, 791559, 791924, 792289, 792655,
    793020, 793385, 793750, 794116, 794481, 794846, 795211, 795577, 795942, 796307, 796672, 797038,
    797403, 797768, 798133, 798499, 798864, 799229, 799594, 799959, 800325, 800690, 801055, 801420,
    801786, 802151, 802516, 802881, 803247, 803612, 803977, 804342, 804708, 805073, 805438, 805803,
    806169, 806534, 806899, 807264, 807630, 807995, 808360, 808725, 809091, 809456, 809821, 810186,
    810552, 810917, 811282, 811647, 812012, 812378, 812743, 813108, 813473, 813839, 814204, 814569,
    814934, 815300, 815665, 816030, 816395, 816761, 817126, 817491, 817856, 818222, 818587, 818952,
    819317, 819683, 820048, 820413, 820778, 821144, 821509, 821874, 822239, 822605, 822970, 823335,
    823700, 824065, 824431, 824796, 825161, 825526, 825892, 826257, 826622, 826987, 827353, 827718,
    828083, 828448, 828814, 829179, 829544, 829909, 830275, 830640, 831005, 831370, 831736, 832101,
    832466, 832831, 833197, 833562, 833927, 834292, 834658, 835023, 835388, 835753, 836118, 836484,
    836849, 837214, 837579, 837945, 838310, 838675, 839040, 839406, 839771, 840136, 840501, 840867,
    841232, 841597, 841962, 842328, 842693, 843058, 843423, 843789, 844154, 844519, 844884, 845250,
    845615, 845980, 846345, 846711, 847076, 847441, 847806, 848171, 848537, 848902, 849267, 849632,
    849998, 850363, 850728, 851093, 851459, 851824, 852189, 852554, 852920, 853285, 853650, 854015,
    854381, 854746, 855111, 855476, 855842, 856207, 856572, 856937, 857303, 857668, 858033, 858398,
    858764, 859129, 859494, 859859, 860224, 860590, 860955, 861320, 861685, 862051, 862416, 862781,
    863146, 863512, 863877, 864242, 864607, 864973, 865338, 865703, 866068, 866434, 866799, 867164,
    867529, 867895, 868260, 868625, 868990, 869356, 869721, 870086, 870451, 870817, 871182, 871547,
    871912, 872277, 872643, 873008, 873373, 873738, 874104, 874469, 874834, 875199, 875565, 875930,
    876295, 876660, 877026, 877391, 877756, 878121, 878487, 878852, 879217, 879582, 879948, 880313,
    880678, 881043, 881409, 881774, 882139, 882504, 882870, 883235, 883600, 883965, 884330, 884696,
    885061, 885426, 885791, 886157, 886522, 886887, 887252, 887618, 887983, 888348, 888713, 889079,
    889444, 889809, 890174, 890540, 890905, 891270, 891635, 892001, 892366, 892731, 893096, 893462,
    893827, 894192, 894557, 894923, 895288, 895653, 896018, 896383, 896749, 897114, 897479, 897844,
    898210, 898575, 898940, 899305, 899671, 900036, 900401, 900766, 901132, 901497, 901862, 902227,
    902593, 902958, 903323, 903688, 904054, 904419, 904784, 905149, 905515, 905880, 906245, 906610,
    906976, 907341, 907706, 908071, 908436, 908802, 909167, 909532, 909897, 910263, 910628, 910993,
    911358, 911724, 912089, 912454, 912819, 913185, 913550, 913915, 914280, 914646, 915011, 915376,
    915741, 916107, 916472, 916837, 917202, 917568, 917933, 918298, 918663, 919029, 919394, 919759,
    920124, 920489, 920855, 921220, 921585, 921950, 922316, 922681, 923046, 923411, 923777, 924142,
    924507, 924872, 925238, 925603, 925968, 926333, 926699, 927064, 927429, 927794, 928160, 928525,
    928890, 929255, 929621, 929986, 930351, 930716, 931082, 931447, 931812, 932177, 932542, 932908,
    933273, 933638, 934003, 934369, 934734, 935099, 935464, 935830, 936195, 936560, 936925, 937291,
    937656, 938021, 938386, 938752, 939117, 939482, 939847, 940213, 940578, 940943, 941308, 941674,
    942039, 942404, 942769, 943135, 943500, 943865, 944230, 944595, 944961, 945326, 945691, 946056,
    946422, 946787, 947152, 947517, 947883, 948248, 948613, 948978, 949344, 949709, 950074, 950439,
    950805, 951170, 951535, 951900, 952266, 952631, 952996, 953361, 953727, 954092, 954457, 954822,
    955188, 955553, 955918, 956283, 956648, 957014, 957379, 957744, 958109, 958475, 958840, 959205,
    959570, 959936, 960301, 960666, 961031, 961397, 961762, 962127, 962492, 962858, 963223, 963588,
    963953, 964319, 964684, 965049, 965414, 965780, 966145, 966510, 966875, 967241, 967606, 967971,
    968336, 968701, 969067, 969432, 969797, 970162, 970528, 970893, 971258, 971623, 971989, 972354,
    972719, 973084, 973450, 973815, 974180, 974545, 974911, 975276, 975641, 976006, 976372, 976737,
    977102, 977467, 977833, 978198, 978563, 978928, 979294, 979659, 980024, 980389, 980754, 981120,
    981485, 981850, 982215, 982581, 982946, 983311, 983676, 984042, 984407, 984772, 985137, 985503,
    985868, 986233, 986598, 986964, 987329, 987694, 988059, 988425, 988790, 989155, 989520, 989886,
    990251, 990616, 990981, 991347, 991712, 992077, 992442, 992807, 993173, 993538, 993903, 994268,
    994634, 994999, 995364, 995729, 996095, 996460, 996825, 997190, 997556, 997921, 998286, 998651,
    999017, 999382, 999747, 1000112, 1000478, 1000843, 1001208, 1001573, 1001939, 1002304, 1002669, 1003034,
    1003400, 1003765, 1004130, 1004495, 1004860, 1005226, 1005591, 1005956, 1006321, 1006687, 1007052, 1007417,
    1007782, 1008148, 1008513, 1008878, 1009243, 1009609, 1009974, 1010339, 1010704, 1011070, 1011435, 1011800,
    1012165, 1012531, 1012896, 1013261, 1013626, 1013992, 1014357, 1014722, 1015087, 1015453, 1015818, 1016183,
    1016548, 1016913, 1017279, 1017644, 1018009, 1018374, 1018740, 1019105, 1019470, 1019835, 1020201, 1020566,
    1020931, 1021296, 1021662, 1022027, 1022392, 1022757, 1023123, 1023488, 1023853, 1024218, 1024584, 1024949,
    1025314, 1025679, 1026045, 1026410, 1026775, 1027140, 1027506, 1027871, 1028236, 1028601, 1028966, 1029332,
    1029697, 1030062, 1030427, 1030793, 1031158, 1031523, 1031888, 1032254, 1032619, 1032984, 1033349, 1033715,
    1034080, 1034445, 1034810, 1035176, 1035541, 1035906, 1036271, 1036637, 1037002, 1037367, 1037732, 1038098,
    1038463, 1038828, 1039193, 1039559, 1039924, 1040289, 1040654, 1041019, 1041385, 1041750, 1042115, 1042480,
    1042846, 1043211, 1043576, 1043941, 1044307, 1044672, 1045037, 1045402, 1045768, 1046133, 1046498, 1046863,
    1047229, 1047594, 1047959, 1048324, 1048690, 1049055, 1049420, 1049785, 1050151, 1050516, 1050881, 1051246,
    1051612, 1051977, 1052342, 1052707, 1053072, 1053438, 1053803, 1054168, 1054533, 1054899, 1055264, 1055629,
    1055994, 1056360, 1056725, 1057090, 1057455, 1057821, 1058186, 1058551, 1058916, 1059282, 1059647, 1060012,
    1060377, 1060743, 1061108, 1061473, 1061838, 1062204, 1062569, 1062934, 1063299, 1063665, 1064030, 1064395,
    1064760, 1065125, 1065491, 1065856, 1066221, 1066586, 1066952, 1067317, 1067682, 1068047, 1068413, 1068778,
    1069143, 1069508, 1069874, 1070239, 1070604, 1070969, 1071335, 1071700, 1072065, 1072430, 1072796, 1073161,
    1073526, 1073891, 1074257, 1074622, 1074987, 1075352, 1075718, 1076083, 1076448, 1076813, 1077178, 1077544,
    1077909, 1078274, 1078639, 1079005, 1079370, 1079735, 1080100, 1080466, 1080831, 1081196, 1081561, 1081927,
    1082292, 1082657, 1083022, 1083388, 1083753, 1084118, 1084483, 1084849, 1085214, 1085579, 1085944, 1086310,
    1086675, 1087040, 1087405, 1087771, 1088136, 1088501, 1088866, 1089231, 1089597, 1089962, 1090327, 1090692,
    1091058, 1091423, 1091788, 1092153, 1092519, 1092884, 1093249, 1093614, 1093980, 1094345, 1094710, 1095075,
    1095441, 1095806, 1096171, 1096536, 1096902, 1097268>>
EqTab == <<
    <<577893,351,887>>, <<578258,699,887>>, <<578623,1057,887>>, <<578989,-38,887>>, <<579354,315,887>>,
    <<579719,671,887>>, <<580084,1009,887>>, <<580450,-77,887>>, <<580815,276,887>>, <<581180,618,887>>,
    <<581545,969,887>>, <<581911,-125,887>>, <<582276,226,887>>, <<582641,584,887>>, <<583006,921,887>>,
    <<583372,-170,887>>, <<583737,182,887>>, <<584102,522,887>>, <<584467,874,887>>, <<584832,1220,886>>,
    <<585198,128,887>>, <<585563,483,887>>, <<585928,822,887>>, <<586293,1175,886>>, <<586659,97,887>>,
    <<587024,444,887>>, <<587389,799,887>>, <<587754,1148,886>>, <<588120,56,887>>, <<588485,409,887>>,
    <<588850,748,887>>, <<589215,1094,886>>, <<589581,7,887>>, <<589946,345,887>>, <<590311,692,887>>,
    <<590676,1042,887>>, <<591042,-47,887>>, <<591407,310,887>>, <<591772,653,887>>, <<592137,1001,887>>,
    <<592503,-83,887>>, <<592868,262,887>>, <<593233,612,887>>, <<593598,966,887>>, <<593964,-126,887>>,
    <<594329,226,887>>, <<594694,570,887>>, <<595059,918,887>>, <<595425,-163,887>>, <<595790,184,887>>,
    <<596155,529,887>>, <<596520,879,887>>, <<596885,1224,886>>, <<597251,132,887>>, <<597616,474,887>>,
    <<597981,819,887>>, <<598346,1172,886>>, <<598712,76,887>>, <<599077,423,887>>, <<599442,780,887>>,
    <<599807,1137,886>>, <<600173,51,887>>, <<600538,400,887>>, <<600903,749,887>>, <<601268,1102,886>>,
    <<601634,9,887>>, <<601999,353,887>>, <<602364,703,887>>, <<602729,1051,887>>, <<603095,-46,887>>,
    <<603460,298,887>>, <<603825,646,887>>, <<604190,1000,887>>, <<604556,-90,887>>, <<604921,254,887>>,
    <<605286,605,887>>, <<605651,958,887>>, <<606017,-135,887>>, <<606382,213,887>>, <<606747,564,887>>,
    <<607112,915,887>>, <<607478,-175,887>>, <<607843,171,887>>, <<608208,525,887>>, <<608573,883,887>>,
    <<608938,1230,886>>, <<609304,134,887>>, <<609669,482,887>>, <<610034,828,887>>, <<610399,1174,886>>,
    <<610765,78,887>>, <<611130,424,887>>, <<611495,777,887>>, <<611860,1121,886>>, <<612226,27,887>>,
    <<612591,385,887>>, <<612956,738,887>>, <<613321,1091,886>>, <<613687,1,887>>, <<614052,349,887>>,
    <<614417,707,887>>, <<614782,1052,886>>, <<615148,-45,887>>, <<615513,308,887>>, <<615878,652,887>>,
    <<616243,997,887>>, <<616609,-95,887>>, <<616974,253,887>>, <<617339,611,887>>, <<617704,957,887>>,
    <<618070,-143,887>>, <<618435,211,887>>, <<618800,558,887>>, <<619165,904,887>>, <<619531,-184,887>>,
    <<619896,162,887>>, <<620261,518,887>>, <<620626,867,887>>, <<620991,1211,886>>, <<621357,133,887>>,
    <<621722,485,887>>, <<622087,831,887>>, <<622452,1182,886>>, <<622818,85,887>>, <<623183,439,887>>,
    <<623548,785,887>>, <<623913,1121,886>>, <<624279,35,887>>, <<624644,379,887>>, <<625009,720,887>>,
    <<625374,1075,886>>, <<625740,-16,887>>, <<626105,343,887>>, <<626470,696,887>>, <<626835,1035,886>>,
    <<627201,-46,887>>, <<627566,304,887>>, <<627931,647,887>>, <<628296,1002,886>>, <<628662,-93,887>>,
    <<629027,258,887>>, <<629392,609,887>>, <<629757,948,887>>, <<630123,-133,887>>, <<630488,218,887>>,
    <<630853,556,887>>, <<631218,908,887>>, <<631584,-188,887>>, <<631949,161,887>>, <<632314,513,887>>,
    <<632679,851,887>>, <<633044,1206,886>>, <<633410,119,887>>, <<633775,459,887>>, <<634140,819,887>>,
    <<634505,1174,886>>, <<634871,88,887>>, <<635236,443,887>>, <<635601,782,887>>, <<635966,1135,886>>,
    <<636332,47,887>>, <<636697,382,887>>, <<637062,733,887>>, <<637427,1078,886>>, <<637793,-18,887>>,
    <<638158,334,887>>, <<638523,675,887>>, <<638888,1032,886>>, <<639254,-51,887>>, <<639619,287,887>>,
    <<639984,641,887>>, <<640349,994,886>>, <<640715,-98,887>>, <<641080,258,887>>, <<641445,600,887>>,
    <<641810,951,886>>, <<642176,-134,887>>, <<642541,205,887>>, <<642906,559,887>>, <<643271,915,887>>,
    <<643637,-180,887>>, <<644002,171,887>>, <<644367,511,887>>, <<644732,857,887>>, <<645097,1211,886>>,
    <<645463,108,887>>, <<645828,457,887>>, <<646193,810,887>>, <<646558,1155,886>>, <<646924,71,887>>,
    <<647289,421,887>>, <<647654,777,887>>, <<648019,1136,886>>, <<648385,37,887>>, <<648750,386,887>>,
    <<649115,741,887>>, <<649480,1085,886>>, <<649846,-6,887>>, <<650211,337,887>>, <<650576,682,887>>,
    <<650941,1033,886>>, <<651307,-66,887>>, <<651672,283,887>>, <<652037,642,887>>, <<652402,988,886>>,
    <<652768,-104,887>>, <<653133,245,887>>, <<653498,594,887>>, <<653863,949,887>>, <<654229,-147,887>>,
    <<654594,200,887>>, <<654959,556,887>>, <<655324,904,887>>, <<655690,-186,887>>, <<656055,168,887>>,
    <<656420,519,887>>, <<656785,871,887>>, <<657150,1212,886>>, <<657516,115,887>>, <<657881,468,887>>,
    <<658246,814,887>>, <<658611,1157,886>>, <<658977,64,887>>, <<659342,412,887>>, <<659707,762,887>>,
    <<660072,1110,886>>, <<660438,22,887>>, <<660803,380,887>>, <<661168,733,887>>, <<661533,1079,886>>,
    <<661899,-10,887>>, <<662264,342,887>>, <<662629,691,887>>, <<662994,1036,886>>, <<663360,-60,887>>,
    <<663725,290,887>>, <<664090,639,887>>, <<664455,984,886>>, <<664821,-105,887>>, <<665186,249,887>>,
    <<665551,595,887>>, <<665916,939,887>>, <<666282,-155,887>>, <<666647,196,887>>, <<667012,548,887>>,
    <<667377,893,887>>, <<667743,-198,887>>, <<668108,157,887>>, <<668473,506,887>>, <<668838,856,887>>,
    <<669203,1212,886>>, <<669569,124,887>>, <<669934,476,887>>, <<670299,819,887>>, <<670664,1163,886>>,
    <<671030,77,887>>, <<671395,419,887>>, <<671760,760,887>>, <<672125,1108,886>>, <<672491,13,887>>,
    <<672856,364,887>>, <<673221,714,887>>, <<673586,1064,886>>, <<673952,-15,887>>, <<674317,332,887>>,
    <<674682,678,887>>, <<675047,1032,886>>, <<675413,-58,887>>, <<675778,294,887>>, <<676143,641,887>>,
    <<676508,984,886>>, <<676874,-100,887>>, <<677239,245,887>>, <<677604,589,887>>, <<677969,945,886>>,
    <<678335,-149,887>>, <<678700,198,887>>, <<679065,544,887>>, <<679430,886,887>>, <<679796,-197,887>>,
    <<680161,150,887>>, <<680526,490,887>>, <<680891,846,887>>, <<681256,1194,886>>, <<681622,107,887>>,
    <<681987,464,887>>, <<682352,812,887>>, <<682717,1172,886>>, <<683083,80,887>>, <<683448,417,887>>,
    <<683813,773,887>>, <<684178,1118,886>>, <<684544,22,887>>, <<684909,370,887>>, <<685274,708,887>>,
    <<685639,1062,886>>, <<686005,-28,887>>, <<686370,314,887>>, <<686735,674,887>>, <<687100,1025,886>>,
    <<687466,-70,887>>, <<687831,285,887>>, <<688196,630,887>>, <<688561,987,886>>, <<688927,-101,887>>,
    <<689292,236,887>>, <<689657,591,887>>, <<690022,941,886>>, <<690388,-154,887>>, <<690753,202,887>>,
    <<691118,548,887>>, <<691483,899,886>>, <<691849,-191,887>>, <<692214,143,887>>, <<692579,496,887>>,
    <<692944,846,887>>, <<693309,1186,886>>, <<693675,99,887>>, <<694040,444,887>>, <<694405,797,887>>,
    <<694770,1155,886>>, <<695136,58,887>>, <<695501,418,887>>, <<695866,773,887>>, <<696231,1113,886>>,
    <<696597,27,887>>, <<696962,374,887>>, <<697327,723,887>>, <<697692,1075,886>>, <<698058,-31,887>>,
    <<698423,319,887>>, <<698788,671,887>>, <<699153,1012,886>>, <<699519,-73,887>>, <<699884,278,887>>,
    <<700249,626,887>>, <<700614,979,886>>, <<700980,-121,887>>, <<701345,232,887>>, <<701710,588,887>>,
    <<702075,929,886>>, <<702441,-159,887>>, <<702806,192,887>>, <<703171,541,887>>, <<703536,899,886>>,
    <<703902,-196,887>>, <<704267,156,887>>, <<704632,510,887>>, <<704997,846,886>>, <<705362,1194,886>>,
    <<705728,103,887>>, <<706093,448,887>>, <<706458,798,887>>, <<706823,1138,886>>, <<707189,45,887>>,
    <<707554,403,887>>, <<707919,749,887>>, <<708284,1104,886>>, <<708650,21,887>>, <<709015,370,887>>,
    <<709380,723,887>>, <<709745,1069,886>>, <<710111,-22,887>>, <<710476,333,887>>, <<710841,673,887>>,
    <<711206,1017,886>>, <<711572,-72,887>>, <<711937,275,887>>, <<712302,626,887>>, <<712667,974,886>>,
    <<713033,-119,887>>, <<713398,233,887>>, <<713763,575,887>>, <<714128,921,886>>, <<714494,-163,887>>,
    <<714859,186,887>>, <<715224,535,887>>, <<715589,883,886>>, <<715954,1233,886>>, <<716320,150,887>>,
    <<716685,500,887>>, <<717050,850,886>>, <<717415,1205,886>>, <<717781,113,887>>, <<718146,457,887>>,
    <<718511,802,886>>, <<718876,1148,886>>, <<719242,56,887>>, <<719607,398,887>>, <<719972,741,887>>,
    <<720337,1093,886>>, <<720703,7,887>>, <<721068,357,887>>, <<721433,710,887>>, <<721798,1063,886>>,
    <<722164,-26,887>>, <<722529,322,887>>, <<722894,670,887>>, <<723259,1023,886>>, <<723625,-64,887>>,
    <<723990,279,887>>, <<724355,624,887>>, <<724720,974,886>>, <<725086,-117,887>>, <<725451,232,887>>,
    <<725816,579,887>>, <<726181,929,886>>, <<726547,-161,887>>, <<726912,182,887>>, <<727277,528,887>>,
    <<727642,881,886>>, <<728007,1228,886>>, <<728373,135,887>>, <<728738,483,887>>, <<729103,835,886>>,
    <<729468,1194,886>>, <<729834,106,887>>, <<730199,455,887>>, <<730564,811,886>>, <<730929,1156,886>>,
    <<731295,60,887>>, <<731660,409,887>>, <<732025,754,886>>, <<732390,1105,886>>, <<732756,7,887>>,
    <<733121,348,887>>, <<733486,704,887>>, <<733851,1052,886>>, <<734217,-39,887>>, <<734582,314,887>>,
    <<734947,662,887>>, <<735312,1017,886>>, <<735678,-75,887>>, <<736043,270,887>>, <<736408,629,887>>,
    <<736773,975,886>>, <<737139,-122,887>>, <<737504,230,887>>, <<737869,577,887>>, <<738234,933,886>>,
    <<738600,-155,887>>, <<738965,187,887>>, <<739330,542,887>>, <<739695,885,886>>, <<740060,1225,886>>,
    <<740426,137,887>>, <<740791,482,887>>, <<741156,832,886>>, <<741521,1181,886>>, <<741887,82,887>>,
    <<742252,443,887>>, <<742617,797,886>>, <<742982,1143,886>>, <<743348,63,887>>, <<743713,410,887>>,
    <<744078,760,886>>, <<744443,1112,886>>, <<744809,12,887>>, <<745174,367,887>>, <<745539,713,886>>,
    <<745904,1048,886>>, <<746270,-40,887>>, <<746635,307,887>>, <<747000,658,887>>, <<747365,1013,886>>,
    <<747731,-87,887>>, <<748096,269,887>>, <<748461,619,887>>, <<748826,959,886>>, <<749192,-124,887>>,
    <<749557,227,887>>, <<749922,574,887>>, <<750287,928,886>>, <<750653,-169,887>>, <<751018,188,887>>,
    <<751383,545,887>>, <<751748,884,886>>, <<752114,-202,887>>, <<752479,146,887>>, <<752844,487,887>>,
    <<753209,839,886>>, <<753574,1178,886>>, <<753940,88,887>>, <<754305,439,887>>, <<754670,774,886>>,
    <<755035,1129,886>>, <<755401,45,887>>, <<755766,395,887>>, <<756131,754,886>>, <<756496,1101,886>>,
    <<756862,13,887>>, <<757227,368,887>>, <<757592,706,886>>, <<757957,1059,886>>, <<758323,-30,887>>,
    <<758688,311,887>>, <<759053,661,886>>, <<759418,1004,886>>, <<759784,-86,887>>, <<760149,271,887>>,
    <<760514,610,887>>, <<760879,959,886>>, <<761245,-127,887>>, <<761610,215,887>>, <<761975,568,887>>,
    <<762340,917,886>>, <<762706,-174,887>>, <<763071,181,887>>, <<763436,521,887>>, <<763801,873,886>>,
    <<764166,1234,886>>, <<764532,141,887>>, <<764897,495,887>>, <<765262,843,886>>, <<765627,1188,886>>,
    <<765993,100,887>>, <<766358,437,887>>, <<766723,783,886>>, <<767088,1135,886>>, <<767454,35,887>>,
    <<767819,383,887>>, <<768184,734,886>>, <<768549,1086,886>>, <<768915,4,887>>, <<769280,350,887>>,
    <<769645,699,886>>, <<770010,1055,886>>, <<770376,-39,887>>, <<770741,311,887>>, <<771106,662,886>>,
    <<771471,1010,886>>, <<771837,-81,887>>, <<772202,262,887>>, <<772567,608,886>>, <<772932,966,886>>,
    <<773298,-127,887>>, <<773663,218,887>>, <<774028,568,887>>, <<774393,915,886>>, <<774759,-177,887>>,
    <<775124,168,887>>, <<775489,515,887>>, <<775854,869,886>>, <<776219,1215,886>>, <<776585,122,887>>,
    <<776950,478,887>>, <<777315,834,886>>, <<777680,1188,886>>, <<778046,96,887>>, <<778411,443,887>>,
    <<778776,794,886>>, <<779141,1141,886>>, <<779507,44,887>>, <<779872,392,887>>, <<780237,740,886>>,
    <<780602,1083,886>>, <<780968,-13,887>>, <<781333,337,887>>, <<781698,691,886>>, <<782063,1043,886>>,
    <<782429,-50,887>>, <<782794,301,887>>, <<783159,655,886>>, <<783524,1003,886>>, <<783890,-89,887>>,
    <<784255,262,887>>, <<784620,612,886>>, <<784985,961,886>>, <<785351,-134,887>>, <<785716,218,887>>,
    <<786081,575,886>>, <<786446,921,886>>, <<786812,-175,887>>, <<787177,173,887>>, <<787542,518,886>>,
    <<787907,865,886>>, <<788272,1210,886>>, <<788638,117,887>>, <<789003,471,887>>, <<789368,816,886>>,
    <<789733,1162,886>>, <<790099,81,887>>, <<790464,435,887>>, <<790829,789,886>>, <<791194,1139,886>>,
    <<791560,46,887>>, <<791925,402,887>>, <<792290,747,886>>, <<792655,1088,886>>, <<793021,0,887>>,
    <<793386,342,887>>, <<793751,687,886>>, <<794116,1035,886>>, <<794482,-59,887>>, <<794847,301,887>>,
    <<795212,649,886>>, <<795577,991,886>>, <<795943,-94,887>>, <<796308,254,887>>, <<796673,603,886>>,
    <<797038,955,886>>, <<797404,-139,887>>, <<797769,218,887>>, <<798134,566,886>>, <<798499,908,886>>,
    <<798865,-172,887>>, <<799230,179,887>>, <<799595,524,886>>, <<799960,874,886>>, <<800325,1215,886>>,
    <<800691,127,887>>, <<801056,475,886>>, <<801421,811,886>>, <<801786,1166,886>>, <<802152,72,887>>,
    <<802517,414,887>>, <<802882,771,886>>, <<803247,1121,886>>, <<803613,41,887>>, <<803978,396,887>>,
    <<804343,735,886>>, <<804708,1093,886>>, <<805074,3,887>>, <<805439,345,887>>, <<805804,698,886>>,
    <<806169,1041,886>>, <<806535,-50,887>>, <<806900,300,887>>, <<807265,638,886>>, <<807630,996,886>>,
    <<807996,-91,887>>, <<808361,248,887>>, <<808726,601,886>>, <<809091,946,886>>, <<809457,-143,887>>,
    <<809822,211,887>>, <<810187,551,886>>, <<810552,906,886>>, <<810918,-181,887>>, <<811283,159,887>>,
    <<811648,517,886>>, <<812013,871,886>>, <<812378,1222,886>>, <<812744,138,887>>, <<813109,474,886>>,
    <<813474,826,886>>, <<813839,1178,886>>, <<814205,73,887>>, <<814570,424,886>>, <<814935,770,886>>,
    <<815300,1114,886>>, <<815666,27,887>>, <<816031,370,887>>, <<816396,728,886>>, <<816761,1087,886>>,
    <<817127,-13,887>>, <<817492,341,887>>, <<817857,694,886>>, <<818222,1042,886>>, <<818588,-43,887>>,
    <<818953,299,887>>, <<819318,648,886>>, <<819683,1001,886>>, <<820049,-101,887>>, <<820414,251,887>>,
    <<820779,606,886>>, <<821144,951,886>>, <<821510,-138,887>>, <<821875,203,887>>, <<822240,550,886>>,
    <<822605,905,886>>, <<822971,-196,887>>, <<823336,153,887>>, <<823701,509,886>>, <<824066,854,886>>,
    <<824431,1209,886>>, <<824797,120,887>>, <<825162,475,886>>, <<825527,834,886>>, <<825892,1175,886>>,
    <<826258,82,887>>, <<826623,435,886>>, <<826988,779,886>>, <<827353,1127,886>>, <<827719,30,887>>,
    <<828084,374,886>>, <<828449,725,886>>, <<828814,1066,886>>, <<829180,-24,887>>, <<829545,335,887>>,
    <<829910,685,886>>, <<830275,1034,886>>, <<830641,-56,887>>, <<831006,294,887>>, <<831371,649,886>>,
    <<831736,994,886>>, <<832102,-100,887>>, <<832467,254,887>>, <<832832,601,886>>, <<833197,949,886>>,
    <<833563,-139,887>>, <<833928,212,887>>, <<834293,562,886>>, <<834658,903,886>>, <<835024,-194,887>>,
    <<835389,158,887>>, <<835754,505,886>>, <<836119,851,886>>, <<836484,1199,886>>, <<836850,109,887>>,
    <<837215,460,886>>, <<837580,809,886>>, <<837945,1162,886>>, <<838311,80,887>>, <<838676,434,886>>,
    <<839041,779,886>>, <<839406,1128,886>>, <<839772,40,887>>, <<840137,386,886>>, <<840502,729,886>>,
    <<840867,1073,886>>, <<841233,-20,887>>, <<841598,329,886>>, <<841963,674,886>>, <<842328,1026,886>>,
    <<842694,-58,887>>, <<843059,289,887>>, <<843424,635,886>>, <<843789,983,886>>, <<844155,-105,887>>,
    <<844520,248,887>>, <<844885,594,886>>, <<845250,942,886>>, <<845616,-143,887>>, <<845981,204,887>>,
    <<846346,553,886>>, <<846711,906,886>>, <<847077,-183,887>>, <<847442,167,887>>, <<847807,510,886>>,
    <<848172,854,886>>, <<848537,1208,886>>, <<848903,111,887>>, <<849268,453,886>>, <<849633,803,886>>,
    <<849998,1149,886>>, <<850364,61,887>>, <<850729,413,886>>, <<851094,763,886>>, <<851459,1125,886>>,
    <<851825,34,887>>, <<852190,377,886>>, <<852555,732,886>>, <<852920,1079,886>>, <<853286,-10,887>>,
    <<853651,336,886>>, <<854016,677,886>>, <<854381,1031,886>>, <<854747,-64,887>>, <<855112,279,886>>,
    <<855477,635,886>>, <<855842,982,886>>, <<856208,-109,887>>, <<856573,239,887>>, <<856938,582,886>>,
    <<857303,940,886>>, <<857669,-152,887>>, <<858034,190,887>>, <<858399,545,886>>, <<858764,894,886>>,
    <<859130,-195,887>>, <<859495,162,887>>, <<859860,509,886>>, <<860225,868,886>>, <<860590,1215,886>>,
    <<860956,111,887>>, <<861321,465,886>>, <<861686,810,886>>, <<862051,1153,886>>, <<862417,63,887>>,
    <<862782,402,886>>, <<863147,755,886>>, <<863512,1107,886>>, <<863878,8,887>>, <<864243,370,886>>,
    <<864608,722,886>>, <<864973,1069,886>>, <<865339,-16,887>>, <<865704,329,886>>, <<866069,685,886>>,
    <<866434,1037,886>>, <<866800,-67,887>>, <<867165,286,886>>, <<867530,634,886>>, <<867895,977,886>>,
    <<868261,-107,887>>, <<868626,239,886>>, <<868991,590,886>>, <<869356,941,886>>, <<869722,-165,887>>,
    <<870087,189,886>>, <<870452,541,886>>, <<870817,883,886>>, <<871183,-203,887>>, <<871548,144,886>>,
    <<871913,497,886>>, <<872278,855,886>>, <<872643,1199,886>>, <<873009,117,886>>, <<873374,472,886>>,
    <<873739,811,886>>, <<874104,1163,886>>, <<874470,68,887>>, <<874835,415,886>>, <<875200,766,886>>,
    <<875565,1100,886>>, <<875931,9,887>>, <<876296,361,886>>, <<876661,703,886>>, <<877026,1060,886>>,
    <<877392,-27,887>>, <<877757,323,886>>, <<878122,678,886>>, <<878487,1019,886>>, <<878853,-68,887>>,
    <<879218,289,886>>, <<879583,630,886>>, <<879948,980,886>>, <<880314,-110,887>>, <<880679,237,886>>,
    <<881044,592,886>>, <<881409,937,886>>, <<881775,-154,887>>, <<882140,201,886>>, <<882505,538,886>>,
    <<882870,885,886>>, <<883236,-204,887>>, <<883601,142,886>>, <<883966,494,886>>, <<884331,835,886>>,
    <<884696,1184,886>>, <<885062,102,886>>, <<885427,449,886>>, <<885792,804,886>>, <<886157,1161,886>>,
    <<886523,69,886>>, <<886888,421,886>>, <<887253,764,886>>, <<887618,1112,886>>, <<887984,25,887>>,
    <<888349,365,886>>, <<888714,709,886>>, <<889079,1059,886>>, <<889445,-34,887>>, <<889810,317,886>>,
    <<890175,666,886>>, <<890540,1015,886>>, <<890906,-71,887>>, <<891271,274,886>>, <<891636,621,886>>,
    <<892001,976,886>>, <<892367,-113,887>>, <<892732,235,886>>, <<893097,583,886>>, <<893462,931,886>>,
    <<893828,-154,887>>, <<894193,196,886>>, <<894558,544,886>>, <<894923,898,886>>, <<895289,-194,887>>,
    <<895654,149,886>>, <<896019,493,886>>, <<896384,840,886>>, <<896749,1189,886>>, <<897115,93,886>>,
    <<897480,436,886>>, <<897845,789,886>>, <<898210,1143,886>>, <<898576,55,886>>, <<898941,408,886>>,
    <<899306,762,886>>, <<899671,1113,886>>, <<900037,21,886>>, <<900402,368,886>>, <<900767,719,886>>,
    <<901132,1072,886>>, <<901498,-26,886>>, <<901863,317,886>>, <<902228,667,886>>, <<902593,1014,886>>,
    <<902959,-77,887>>, <<903324,272,886>>, <<903689,621,886>>, <<904054,974,886>>, <<904420,-123,887>>,
    <<904785,225,886>>, <<905150,579,886>>, <<905515,928,886>>, <<905881,-165,887>>, <<906246,184,886>>,
    <<906611,535,886>>, <<906976,893,886>>, <<907342,-196,887>>, <<907707,152,886>>, <<908072,506,886>>,
    <<908437,850,886>>, <<908802,1193,886>>, <<909168,100,886>>, <<909533,444,886>>, <<909898,796,886>>,
    <<910263,1139,886>>, <<910629,40,886>>, <<910994,397,886>>, <<911359,746,886>>, <<911724,1097,886>>,
    <<912090,13,886>>, <<912455,361,886>>, <<912820,717,886>>, <<913185,1066,886>>, <<913551,-30,886>>,
    <<913916,328,886>>, <<914281,674,886>>, <<914646,1015,886>>, <<915012,-75,886>>, <<915377,269,886>>,
    <<915742,624,886>>, <<916107,975,886>>, <<916473,-123,887>>, <<916838,232,886>>, <<917203,577,886>>,
    <<917568,918,886>>, <<917934,-168,887>>, <<918299,178,886>>, <<918664,530,886>>, <<919029,880,886>>,
    <<919394,1222,886>>, <<919760,142,886>>, <<920125,496,886>>, <<920490,842,886>>, <<920855,1200,886>>,
    <<921221,106,886>>, <<921586,454,886>>, <<921951,805,886>>, <<922316,1143,886>>, <<922682,57,886>>,
    <<923047,404,886>>, <<923412,738,886>>, <<923777,1091,886>>, <<924143,-1,886>>, <<924508,351,886>>,
    <<924873,708,886>>, <<925238,1051,886>>, <<925604,-33,886>>, <<925969,320,886>>, <<926334,659,886>>,
    <<926699,1016,886>>, <<927065,-74,886>>, <<927430,273,886>>, <<927795,625,886>>, <<928160,966,886>>,
    <<928526,-120,886>>, <<928891,236,886>>, <<929256,575,886>>, <<929621,928,886>>, <<929987,-164,887>>,
    <<930352,178,886>>, <<930717,530,886>>, <<931082,871,886>>, <<931447,1222,886>>, <<931813,135,886>>,
    <<932178,472,886>>, <<932543,826,886>>, <<932908,1183,886>>, <<933274,93,886>>, <<933639,453,886>>,
    <<934004,799,886>>, <<934369,1151,886>>, <<934735,65,886>>, <<935100,402,886>>, <<935465,753,886>>,
    <<935830,1103,886>>, <<936196,3,886>>, <<936561,352,886>>, <<936926,695,886>>, <<937291,1045,886>>,
    <<937657,-37,886>>, <<938022,303,886>>, <<938387,655,886>>, <<938752,1009,886>>, <<939118,-87,886>>,
    <<939483,266,886>>, <<939848,616,886>>, <<940213,966,886>>, <<940579,-119,886>>, <<940944,221,886>>,
    <<941309,571,886>>, <<941674,929,886>>, <<942040,-164,886>>, <<942405,187,886>>, <<942770,535,886>>,
    <<943135,879,886>>, <<943500,1230,886>>, <<943866,129,886>>, <<944231,474,886>>, <<944596,828,886>>,
    <<944961,1169,886>>, <<945327,78,886>>, <<945692,430,886>>, <<946057,784,886>>, <<946422,1143,886>>,
    <<946788,51,886>>, <<947153,400,886>>, <<947518,756,886>>, <<947883,1101,886>>, <<948249,9,886>>,
    <<948614,359,886>>, <<948979,706,886>>, <<949344,1053,886>>, <<949710,-46,886>>, <<950075,300,886>>,
    <<950440,655,886>>, <<950805,1004,886>>, <<951171,-90,886>>, <<951536,261,886>>, <<951901,609,886>>,
    <<952266,959,886>>, <<952632,-134,886>>, <<952997,214,886>>, <<953362,568,886>>, <<953727,917,886>>,
    <<954093,-177,886>>, <<954458,177,886>>, <<954823,533,886>>, <<955188,885,886>>, <<955553,1232,886>>,
    <<955919,137,886>>, <<956284,487,886>>, <<956649,833,886>>, <<957014,1176,886>>, <<957380,83,886>>,
    <<957745,433,886>>, <<958110,777,886>>, <<958475,1122,886>>, <<958841,33,886>>, <<959206,388,886>>,
    <<959571,743,886>>, <<959936,1091,886>>, <<960302,2,886>>, <<960667,357,886>>, <<961032,704,886>>,
    <<961397,1051,886>>, <<961763,-39,886>>, <<962128,308,886>>, <<962493,656,886>>, <<962858,1000,886>>,
    <<963224,-91,886>>, <<963589,266,886>>, <<963954,612,886>>, <<964319,956,886>>, <<964685,-134,886>>,
    <<965050,211,886>>, <<965415,561,886>>, <<965780,908,886>>, <<966146,-185,886>>, <<966511,172,886>>,
    <<966876,517,886>>, <<967241,864,886>>, <<967606,1221,886>>, <<967972,134,886>>, <<968337,488,886>>,
    <<968702,838,886>>, <<969067,1182,886>>, <<969433,97,886>>, <<969798,442,886>>, <<970163,781,886>>,
    <<970528,1133,886>>, <<970894,35,886>>, <<971259,379,886>>, <<971624,728,886>>, <<971989,1075,886>>,
    <<972355,-4,886>>, <<972720,347,886>>, <<973085,689,886>>, <<973450,1046,886>>, <<973816,-46,886>>,
    <<974181,303,886>>, <<974546,656,886>>, <<974911,1001,886>>, <<975277,-83,886>>, <<975642,264,886>>,
    <<976007,604,886>>, <<976372,962,886>>, <<976738,-128,886>>, <<977103,216,886>>, <<977468,567,886>>,
    <<977833,908,886>>, <<978199,-180,886>>, <<978564,169,886>>, <<978929,507,886>>, <<979294,862,886>>,
    <<979659,1211,886>>, <<980025,114,886>>, <<980390,471,886>>, <<980755,822,886>>, <<981120,1181,886>>,
    <<981486,97,886>>, <<981851,436,886>>, <<982216,792,886>>, <<982581,1141,886>>, <<982947,41,886>>,
    <<983312,393,886>>, <<983677,735,886>>, <<984042,1082,886>>, <<984408,-8,886>>, <<984773,329,886>>,
    <<985138,687,886>>, <<985503,1042,886>>, <<985869,-57,886>>, <<986234,298,886>>, <<986599,645,886>>,
    <<986964,997,886>>, <<987330,-87,886>>, <<987695,253,886>>, <<988060,608,886>>, <<988425,961,886>>,
    <<988791,-140,886>>, <<989156,216,886>>, <<989521,568,886>>, <<989886,918,886>>, <<990252,-168,886>>,
    <<990617,168,886>>, <<990982,517,886>>, <<991347,870,886>>, <<991712,1206,886>>, <<992078,118,886>>,
    <<992443,466,886>>, <<992808,811,886>>, <<993173,1166,886>>, <<993539,70,886>>, <<993904,427,886>>,
    <<994269,788,886>>, <<994634,1130,886>>, <<995000,43,886>>, <<995365,395,886>>, <<995730,741,886>>,
    <<996095,1095,886>>, <<996461,-5,886>>, <<996826,342,886>>, <<997191,694,886>>, <<997556,1031,886>>,
    <<997922,-58,886>>, <<998287,297,886>>, <<998652,645,886>>, <<999017,997,886>>, <<999383,-100,886>>,
    <<999748,248,886>>, <<1000113,604,886>>, <<1000478,946,886>>, <<1000844,-144,886>>, <<1001209,211,886>>,
    <<1001574,557,886>>, <<1001939,910,886>>, <<1002305,-180,886>>, <<1002670,173,886>>, <<1003035,530,886>>,
    <<1003400,871,886>>, <<1003765,1216,885>>, <<1004131,128,886>>, <<1004496,472,886>>, <<1004861,819,886>>,
    <<1005226,1163,885>>, <<1005592,68,886>>, <<1005957,420,886>>, <<1006322,763,886>>, <<1006687,1113,886>>,
    <<1007053,34,886>>, <<1007418,385,886>>, <<1007783,736,886>>, <<1008148,1085,886>>, <<1008514,-4,886>>,
    <<1008879,349,886>>, <<1009244,694,886>>, <<1009609,1039,886>>, <<1009975,-49,886>>, <<1010340,297,886>>,
    <<1010705,643,886>>, <<1011070,994,886>>, <<1011436,-95,886>>, <<1011801,255,886>>, <<1012166,598,886>>,
    <<1012531,941,886>>, <<1012897,-146,886>>, <<1013262,204,886>>, <<1013627,549,886>>, <<1013992,900,886>>,
    <<1014358,-190,886>>, <<1014723,161,886>>, <<1015088,511,886>>, <<1015453,863,886>>, <<1015818,1220,885>>,
    <<1016184,133,886>>, <<1016549,478,886>>, <<1016914,824,886>>, <<1017279,1175,885>>, <<1017645,80,886>>,
    <<1018010,423,886>>, <<1018375,767,886>>, <<1018740,1113,885>>, <<1019106,23,886>>, <<1019471,369,886>>,
    <<1019836,720,886>>, <<1020201,1079,885>>, <<1020567,-12,886>>, <<1020932,336,886>>, <<1021297,686,886>>,
    <<1021662,1037,885>>, <<1022028,-49,886>>, <<1022393,297,886>>, <<1022758,643,886>>, <<1023123,997,885>>,
    <<1023489,-98,886>>, <<1023854,249,886>>, <<1024219,601,886>>, <<1024584,950,886>>, <<1024950,-139,886>>,
    <<1025315,203,886>>, <<1025680,547,886>>, <<1026045,901,886>>, <<1026411,-193,886>>, <<1026776,150,886>>,
    <<1027141,502,886>>, <<1027506,848,886>>, <<1027871,1202,885>>, <<1028237,115,886>>, <<1028602,465,886>>,
    <<1028967,827,886>>, <<1029332,1175,885>>, <<1029698,78,886>>, <<1030063,431,886>>, <<1030428,776,886>>,
    <<1030793,1125,885>>, <<1031159,32,886>>, <<1031524,370,886>>, <<1031889,724,886>>, <<1032254,1069,885>>,
    <<1032620,-28,886>>, <<1032985,330,886>>, <<1033350,679,886>>, <<1033715,1030,885>>, <<1034081,-60,886>>,
    <<1034446,283,886>>, <<1034811,643,886>>, <<1035176,992,885>>, <<1035542,-107,886>>, <<1035907,249,886>>,
    <<1036272,595,886>>, <<1036637,944,885>>, <<1037003,-141,886>>, <<1037368,205,886>>, <<1037733,562,886>>,
    <<1038098,909,886>>, <<1038464,-196,886>>, <<1038829,158,886>>, <<1039194,503,886>>, <<1039559,848,886>>,
    <<1039924,1199,885>>, <<1040290,99,886>>, <<1040655,454,886>>, <<1041020,808,886>>, <<1041385,1150,885>>,
    <<1041751,72,886>>, <<1042116,426,886>>, <<1042481,771,886>>, <<1042846,1127,885>>, <<1043212,30,886>>,
    <<1043577,384,886>>, <<1043942,736,886>>, <<1044307,1070,885>>, <<1044673,-18,886>>, <<1045038,329,886>>,
    <<1045403,671,886>>, <<1045768,1027,885>>, <<1046134,-67,886>>, <<1046499,286,886>>, <<1046864,638,886>>,
    <<1047229,974,885>>, <<1047595,-111,886>>, <<1047960,242,886>>, <<1048325,585,886>>, <<1048690,940,885>>,
    <<1049056,-154,886>>, <<1049421,198,886>>, <<1049786,556,886>>, <<1050151,899,885>>, <<1050517,-185,886>>,
    <<1050882,169,886>>, <<1051247,507,886>>, <<1051612,858,885>>, <<1051977,1203,885>>, <<1052343,109,886>>,
    <<1052708,461,886>>, <<1053073,797,886>>, <<1053438,1145,885>>, <<1053804,59,886>>, <<1054169,402,886>>,
    <<1054534,760,886>>, <<1054899,1114,885>>, <<1055265,26,886>>, <<1055630,382,886>>, <<1055995,723,886>>,
    <<1056360,1075,885>>, <<1056726,-9,886>>, <<1057091,331,886>>, <<1057456,680,886>>, <<1057821,1028,885>>,
    <<1058187,-67,886>>, <<1058552,287,886>>, <<1058917,631,886>>, <<1059282,980,885>>, <<1059648,-106,886>>,
    <<1060013,234,886>>, <<1060378,581,886>>, <<1060743,934,885>>, <<1061109,-158,886>>, <<1061474,195,886>>,
    <<1061839,539,886>>, <<1062204,887,885>>, <<1062570,-195,886>>, <<1062935,153,886>>, <<1063300,506,886>>,
    <<1063665,863,885>>, <<1064030,1211,885>>, <<1064396,120,886>>, <<1064761,463,886>>, <<1065126,808,885>>,
    <<1065491,1160,885>>, <<1065857,60,886>>, <<1066222,404,886>>, <<1066587,754,886>>, <<1066952,1102,885>>,
    <<1067318,14,886>>, <<1067683,365,886>>, <<1068048,716,886>>, <<1068413,1071,885>>, <<1068779,-22,886>>,
    <<1069144,325,886>>, <<1069509,680,886>>, <<1069874,1032,885>>, <<1070240,-61,886>>, <<1070605,284,886>>,
    <<1070970,631,886>>, <<1071335,983,885>>, <<1071701,-108,886>>, <<1072066,239,886>>, <<1072431,592,886>>,
    <<1072796,941,885>>, <<1073162,-156,886>>, <<1073527,190,886>>, <<1073892,538,886>>, <<1074257,887,885>>,
    <<1074622,1234,885>>, <<1074988,139,886>>, <<1075353,492,886>>, <<1075718,848,885>>, <<1076083,1199,885>>,
    <<1076449,113,886>>, <<1076814,466,886>>, <<1077179,816,885>>, <<1077544,1162,885>>, <<1077910,68,886>>,
    <<1078275,417,886>>, <<1078640,769,885>>, <<1079005,1110,885>>, <<1079371,12,886>>, <<1079736,362,886>>,
    <<1080101,709,885>>, <<1080466,1059,885>>, <<1080832,-30,886>>, <<1081197,320,886>>, <<1081562,675,886>>,
    <<1081927,1021,885>>, <<1082293,-72,886>>, <<1082658,284,886>>, <<1083023,631,886>>, <<1083388,980,885>>,
    <<1083754,-112,886>>, <<1084119,236,886>>, <<1084484,593,886>>, <<1084849,942,885>>, <<1085215,-151,886>>,
    <<1085580,203,886>>, <<1085945,546,886>>, <<1086310,889,885>>, <<1086676,-203,886>>, <<1087041,141,886>>,
    <<1087406,494,886>>, <<1087771,839,885>>, <<1088136,1181,885>>, <<1088502,98,886>>, <<1088867,449,886>>,
    <<1089232,800,885>>, <<1089597,1158,885>>, <<1089963,66,886>>, <<1090328,421,886>>, <<1090693,770,885>>,
    <<1091058,1112,885>>, <<1091424,28,886>>, <<1091789,373,886>>, <<1092154,713,885>>, <<1092519,1062,885>>,
    <<1092885,-35,886>>, <<1093250,319,886>>, <<1093615,671,885>>, <<1093980,1012,885>>, <<1094346,-70,886>>,
    <<1094711,276,886>>, <<1095076,619,885>>, <<1095441,974,885>>, <<1095807,-118,886>>, <<1096172,235,886>>,
    <<1096537,586,885>>, <<1096902,927,885>>, <<1097268,-154,886>>>>
UhjTab == <<
    735677, 736042, 736407, 736773, 737138, 737503, 737868, 738234, 738599, 738964, 739329, 739695,
    740060, 740425, 740790, 741155, 741521, 741886, 742251, 742616, 742982, 743347, 743712, 744077,
    744443, 744808, 745173, 745538, 745904, 746269, 746634, 746999, 747365, 747730, 748095, 748460,
    748826, 749191, 749556, 749921, 750287, 750652, 751017, 751382, 751747, 752113, 752478, 752843,
    753208, 753574>>
====
