/* tables of the standard, taken from the decoder once by a generator */
#ifndef HOATAB_H
#define HOATAB_H
static const float ht_fine_az[900] = {
0, 0, -2.96215558, 0.671211898, 1.01894605, -1.92144918, 2.1162436, -3.02869463, -2.62445855, 1.79856217,
-2.99223471, -1.86763608, -2.14936519, 1.35398209, -0.430873007, -0.673141122, -1.79862225, 2.82874012, 1.73706186, -2.98967385,
3.03499746, 0.347348094, -1.14934707, 3.0536797, 0.364289105, -2.82495356, -0.0480852015, -1.64304352, -1.66093171, 0.647002876,
-2.13919854, 1.48413086, 1.60820246, -0.623321772, 1.92155111, 0.190834001, 0.0992576033, -1.99857891, 1.51293278, -0.400344193,
2.59472346, 2.91170335, -0.384735614, -0.106935203, -3.09111214, 0.428967208, 3.05009103, 2.99391222, -2.64164615, 2.50254917,
-1.56768632, -3.08292818, 2.17042136, 1.48056316, 0.928946197, 1.58682454, -2.74047828, 2.37142992, -2.92349505, 1.08896494,
0.126664698, 2.72031784, -0.707784176, -1.05418074, -2.27195311, -0.717720807, -2.70418715, -0.752747595, 1.9717406, -0.268336505,
-0.198235199, 2.42318439, 2.98265433, 0.925500929, 1.72702074, 0.534882724, -2.29022312, -2.77412581, -3.04163122, -2.33316588,
0.740176678, -2.84226322, -0.885560393, 2.95192027, 2.50532126, 2.66854429, 1.74034405, -0.900842309, 0.0595757999, 2.57288122,
2.72921538, 2.06011724, -1.86951959, 1.64925253, 2.1762526, 1.24645948, 1.90956259, -1.03417921, 1.1876297, -0.429682702,
-0.115190402, 2.31682968, -1.27415955, 3.07371306, -2.55107903, 2.40356636, -1.76854551, 1.41555381, 1.13792276, 2.26373029,
0.707525671, -0.405803412, 2.2100184, -1.34935224, 0.477288306, 2.22724915, 3.03844285, -2.85318446, 1.13357472, 0.247727394,
3.10070419, 1.5429492, 1.82581401, -2.9947319, -2.48101401, -2.59853125, -0.348168999, -0.905226827, -2.1506083, 2.96718836,
2.52513552, -3.00429988, -1.60675144, -0.163091496, -1.53884411, 0.239356101, 0.968192518, -2.56669569, -0.139221206, 1.27273309,
-1.92423475, -1.31153083, -2.60609388, 2.50401044, 0.229222596, 0.0350544006, 2.72626662, 2.63744068, -2.08036661, -2.98001122,
1.41479731, -1.89452648, 1.45519876, -1.69496095, 2.56763458, 2.10920405, -0.177939296, 2.24434185, 2.25620174, 1.40507352,
1.82505107, 1.18611431, -0.0733669028, 1.98671246, 1.22205865, -1.17941511, -1.05423474, -0.79650569, 1.04957938, 0.2395605,
2.93505359, 2.98606038, -2.07423925, -0.754647374, 1.15415764, -3.01748633, 1.81203544, -2.95066309, -2.51259255, 1.70557046,
2.39456391, -2.3479948, -2.01220965, 0.0918295011, -0.102581002, -0.319110394, -0.210431799, 2.19633079, 1.9946481, 1.18064308,
-1.92915964, -0.858412981, 3.03133702, -3.05683708, 0.704406381, -2.01108742, -2.5338707, 0.965638578, 1.82712758, 0.152264193,
1.68148363, 0.818661213, -2.74524832, 1.80881858, 2.95048404, -1.07689404, -1.65697777, -2.34401441, 2.37038064, -3.00680804,
-2.64413428, -1.47092295, 2.51572943, -2.87179255, 0.528245509, -1.01039612, -2.82872701, 1.42412531, 1.38142431, -0.049875699,
0.324436992, 2.49608541, -0.682592094, -0.577313006, -1.12186718, -1.52465129, -0.157045305, 0.771732092, -1.48423159, -0.909666717,
0.098189801, 1.38704669, -2.3795414, 2.54462624, -3.11759853, 1.67271507, 1.71587467, 1.00638366, -2.0828197, -2.25510311,
-1.13270819, -2.33108759, 1.23566699, 1.3526597, 1.35057366, 1.6041888, -2.34947205, -2.34005904, 1.47741103, -1.17992353,
-0.00373069989, 1.55127919, 0.625167906, 0.433407903, 0.711093783, -0.0593345985, 3.10565162, -1.72826064, -2.90281105, -1.88782239,
-1.96901906, 2.74471545, -1.42907524, -1.14510202, 2.91782236, 0.662504673, 0.699801803, 1.91783559, -2.15664768, 0.731985509,
-2.78164601, 0.597466886, -1.46528709, -0.0339522995, -0.957798421, -2.46679902, -2.2475903, -0.515623987, 0.420108587, 2.09104443,
1.97774017, -1.09488034, -0.140011102, 1.01671386, 1.29057932, 0.980219305, 0.45376581, -2.09584188, 1.82252252, -2.6839087,
-2.46818233, -0.851198673, 2.47821903, 1.26691782, -1.51410353, -2.90096164, -2.16964245, 2.17111635, -0.255677193, 0.0330612995,
1.51251721, 1.54692996, 2.79257965, -1.89185894, 2.39430046, -0.385767609, -0.801052272, 0.471599013, 2.81982732, 1.67103732,
-1.73371398, -2.01379871, 2.85812759, 1.86801231, 1.79726875, 1.60666704, 1.68703675, -1.27893043, 1.14051294, 0.669322073,
1.46397305, -1.76553035, 2.06571889, -1.77234626, -2.84497595, -0.740270793, 0.441246301, 1.74039102, 2.84396791, -2.6813302,
-2.23728848, -0.996403277, -1.21133685, -2.43902159, -1.15280783, -1.64946234, 2.02982187, -1.54993117, -0.699661076, 2.80117941,
-1.52586806, 1.04476154, -1.11922097, -0.596194923, -2.31220269, -2.06861687, -1.93892157, -1.71555734, -1.96219051, 2.47772908,
0.0867668018, 1.88940918, 2.16882634, 2.49012923, 2.21097469, 2.81048179, 2.1220212, 1.2730304, 0.829545379, 1.81826067,
-0.982952774, -2.92799711, 1.23936629, 2.90133238, 2.75995708, -0.510757506, 2.0459137, -1.82114565, -2.18266058, -1.7796613,
-2.71047759, -2.15920639, 0.190668494, 1.06919265, 2.7875154, 1.14347637, -1.86219752, -2.0475359, 1.63964844, 0.197557107,
0.242325097, 1.60648596, 2.45533681, -2.7201798, 2.63647485, 2.12454939, -1.83475077, -1.367046, 1.52114928, -0.915507197,
1.53957748, -1.39124131, 2.4112761, -2.93254209, -2.16194391, -2.58432198, -1.49995434, -2.14125514, 2.06111145, -1.11461389,
1.99693024, -0.546331525, -0.0022142001, 2.65097117, -1.5107578, 2.60395432, 0.29010129, 0.489904791, -0.65453428, -2.92874861,
0.758136988, -1.24591875, 1.32516181, 1.61369097, -0.904675603, -3.1376555, 2.3810606, -0.294560611, -2.43509769, -0.114677399,
0.558131695, -2.37259102, -0.779851377, 1.88923442, 1.61738229, -3.11502934, -0.793989301, 2.54319692, 2.1833303, -1.33162367,
2.33855963, -0.324173808, -2.5931344, -1.21295273, -0.893213212, -1.67430806, -2.80922818, -2.83336139, -0.407795906, -2.86135435,
-0.257074594, -0.161404401, -0.227029204, 0.796767294, 1.82001829, 1.78360975, 1.46305799, 1.01109529, 0.302363515, 0.0411820002,
0.858746588, -0.280986696, 2.91903567, 0.139721796, -0.548186898, -1.76650071, -2.40708065, -0.951386094, 1.21974349, 0.415346295,
0.816060126, -2.17220211, -0.547792315, 0.540668786, -1.55850899, 0.55090493, -3.12788439, 2.94340324, 2.67047691, -1.38496578,
-0.191132396, -0.52725172, -3.09289598, -1.13830781, 3.09020019, 0.725686312, 1.15359056, -0.516422808, -0.219477206, 1.00347006,
0.750808775, 3.03081489, 2.69087148, -2.46184349, 2.27377176, -2.96048236, -2.81676221, -0.418830991, 0.944866478, -2.44875932,
-0.392958909, -1.36115003, -0.236900195, -2.47440553, 1.0342747, -2.51842999, 0.944331706, -0.805247724, 1.34946918, -1.24570072,
-0.753081083, 2.05759287, 2.30990791, -1.37918961, -1.47159076, -0.0338140987, -1.44605362, -1.34744847, -1.72473133, -1.4607116,
2.26887178, 0.446749091, 0.0365266986, 0.171124697, -1.33749402, 2.15109015, 2.07083201, -2.13500261, -2.84201789, -2.01941729,
1.90207195, -1.8492198, 2.26107478, 0.779413283, -0.495062113, -1.82154763, -2.5192647, 2.66069341, -2.66539717, 0.0621545985,
1.53109264, 0.355014414, -1.48002076, -2.99244881, -1.98913705, -2.33848381, -0.633726895, 2.35791683, 2.12428212, -0.202440396,
1.99449527, -2.08105803, 2.07672071, -1.27744675, -1.50994122, -2.75281763, 1.17335999, 0.912147522, 3.02941656, 1.28600955,
0.2880494, 2.79183149, -1.42608202, 2.69625831, 3.0092597, -1.55714095, -2.81772161, -1.23100138, 0.732968628, 2.84504771,
-2.34697652, -3.02417564, -3.05542183, 2.8048079, 1.09348321, -2.89502501, -0.857801914, 1.13957477, -1.71255994, -2.63528872,
-2.21063757, 2.88049388, -1.97041166, 2.67796826, 2.7903595, 0.205937102, -2.22722578, -1.00704753, -0.532861114, 0.907231927,
-1.62601697, -1.19994938, 2.33729959, 0.329745799, -1.80618203, -2.14768767, -1.99275661, -2.73700142, -2.29584551, -1.68558919,
3.01149106, -1.13626659, -3.13129306, 1.85984409, 1.41737545, -3.05980492, -2.95816278, -1.40124345, -0.0186330993, -0.921330929,
0.802307427, -1.68372989, 0.910812497, 2.27159834, -0.0639410019, -0.487602204, -0.772194386, -0.70524472, 0.685032129, 2.26578784,
-0.636964321, 1.02663434, 3.13070345, 2.45633006, 0.856710196, 1.1421138, 0.96821779, 1.4181217, -0.387272805, -2.55266929,
0.886883676, -2.84119439, 2.2687304, -0.719831705, 0.850138485, 2.30587602, 2.28350401, -1.85822296, 1.67279756, 1.63615155,
-1.8766607, 0.612644076, -0.876664877, -2.99924374, -1.13072336, 1.92799652, 0.664916515, 0.228560895, 1.48526955, -2.35266399,
-0.836593926, 0.775683999, 2.98212957, 2.86876106, -1.2793889, -0.642661512, -0.407660514, 1.29367948, 0.549881101, 0.354599595,
1.28951919, 2.77756691, -2.21475244, 0.476481199, -2.70808768, -1.20445311, 0.670866013, -0.936115026, 1.80652475, -1.68140066,
-2.17448545, 1.7407316, -0.619309783, 0.875902176, -1.03436685, -1.70003438, -0.517293215, -2.16008806, -0.400593907, 2.31188107,
-0.730162382, -3.08473802, -1.6155808, -1.65087974, 0.295543194, 1.86712658, 2.48461986, -1.56045091, 2.50567698, 0.0652052984,
2.7669394, 0.896670878, 0.798323274, -0.462120593, 2.59084558, 1.25854266, -0.513222694, -1.32130551, -2.62376881, -1.08364654,
0.566512406, 1.73399115, 1.75226796, 1.58135879, -0.335827887, 0.332372904, 1.52873003, -1.43991065, 0.940132976, 1.34761977,
-0.230858907, 1.94504476, 0.277600586, 0.313832313, -0.0857629031, -0.340801388, -2.6643765, 2.11515188, 1.15680063, -0.931537211,
-0.95667249, 2.56046748, -2.804775, -1.74246275, 2.89085722, -2.87152147, 2.55599785, 2.02870321, 2.6348002, -0.676034808,
-2.200212, -1.82549894, -1.60346615, 1.37133276, 0.639908671, 1.77863002, 0.548414826, -1.94909596, -0.788727224, -0.419780195,
-2.55477571, -2.23861217, -2.82961774, -2.22717094, 0.145941794, -0.3293432, -2.60002828, 2.68198371, 2.27774429, -2.4727602,
-1.11859405, -1.92724216, -0.115340702, 1.35373485, 1.53631568, -1.09784055, 2.27504134, -2.57530069, 1.06752622, 0.339629114,
0.143398702, 0.404917896, -2.35660148, 0.653129876, -0.26842171, 0.725942075, 3.10321474, -2.09622073, 1.92032325, 1.60399795,
-2.07276297, -2.1147244, -1.38656306, 1.31768835, -1.23679042, 0.451055586, -1.03890204, 1.44593298, -1.82048631, -0.762435973,
1.18346858, -0.970146, 0.417169899, -1.61309016, -1.92323887, 0.145243794, 2.67494702, -2.04820323, -0.867445827, 3.13174915,
-1.34164155, -0.458065212, -0.929665029, -0.190525606, 1.94360137, 0.265944809, 0.880834877, -0.242081806, 0.986461103, -0.00263080001,
-3.10426068, -0.640178323, 0.273102999, -2.37281394, -1.01864839, -2.56219625, 0.56749332, 2.85206509, -0.455813199, 2.61836338,
-1.27477562, 2.92591262, 0.537384808, -0.81773603, -2.77897906, -1.74739373, 0.384099603, -0.00477789994, 2.00179958, -2.47085452,
2.78722262, 1.95658565, -0.454740196, 1.14404249, 2.53564119, 0.861751199, -2.68449378, 0.556591809, 2.02222896, 2.6428473,
-0.341608196, 2.34939933, -0.827120781, -0.634061396, 2.64309335, 0.112418696, 1.41871035, 1.13847983, -0.195995405, 1.1409595,
-0.625067711, 0.365125895, -0.283691496, -1.76642716, 0.605159998, 2.67578316, 1.09025669, 0.0624617003, 0.469998598, -1.30095136,
1.74539328, 0.556351721, -1.28162372, -0.584174395, -1.42760563, 3.12871099, -1.52444041, -1.54172206, -2.60456467, 0.575853288,
2.95876765, -2.43296051, -2.49030447, -2.39915633, 2.43801117, -0.159313902, 0.0122411, 2.25358415, 1.22411346, 2.95381761,
0.733704209, -3.11136985, -1.15174854, 0.938510001, 1.68336344, 0.657985508, -0.391669303, -2.27190518, 0.114200003, -2.72082829,
-2.00613785, 2.12098718, 0.181627706, -0.656021774, 2.9098959, -2.51554918, 2.22832608, 3.13938165, -1.23807061, 0.0844397992,
-0.935888708, -1.03089905, -0.875249803, 2.79102373, -0.575872898, 0.270673394, 0.878214717, -0.510400474, -2.24603558, -2.42830157,
0.423603207, 2.34427571, 2.411268, -1.27631259, 2.0040915, 0.215760902, 1.67591417, -1.41063511, 1.24728858, -0.084399499};
static const float ht_fine_ci[900] = {
1, -0.0777499005, 0.0526218005, -0.000582000008, 0.327423185, 0.623493671, 0.00327869994, 0.257912606, -0.628351271, -0.104138099,
-0.509331584, -0.916463673, -0.895989001, 0.835563302, 0.904305518, -0.222527802, 0.415333301, 0.906901181, -0.2149266, -0.954013228,
-0.147301793, 0.0457951017, -0.0474979989, 0.527230799, 0.160071105, 0.805747271, -0.724220872, -0.276404589, 0.673500299, 0.976801813,
0.94815892, 0.427538693, 0.000483200012, -0.457127094, 0.118873999, -0.366242707, -0.164108202, 0.906037807, 0.783204913, 0.243442401,
-0.0095135998, 0.373025894, 0.583471179, -0.556408525, -0.417834699, -0.386636287, -0.450206488, -0.262104303, 0.37817511, 0.643099189,
0.160895705, -0.611410022, -0.381175607, 0.000916799996, 0.40285939, 0.850783885, -0.91916281, 0.150144294, -0.812266111, 0.0182914007,
0.089032799, -0.0068597002, 0.928682804, 0.542980909, 0.789376616, 0.0222935993, -0.3324458, 0.271838903, 0.536350906, -0.28021419,
-0.476668686, -0.153924495, 0.052772399, -0.820946217, 0.975702226, 0.638528883, 0.350532889, 0.340964198, 0.990375698, -0.798120201,
-0.86257273, 0.527674496, -0.385596901, -0.374609798, 0.0899795964, 0.374082088, -0.965518713, -0.266612798, 0.885818779, -0.64052242,
-0.621208787, -0.899769902, 0.780676723, -0.767454982, 0.689255416, 0.46969381, 0.9453426, -0.0970501974, -0.4192532, -0.742441118,
0.566398919, -0.365869492, 0.595669091, -0.0290754996, -0.0412376001, -0.461619109, -0.257105291, -0.109079503, 0.533694208, -0.977005303,
-0.919632614, 0.842771411, -0.0677976012, 0.964726925, 0.946797371, 0.599727511, 0.416267186, -0.476635307, -0.606754899, -0.739905596,
0.632840872, -0.109342098, 0.852639318, -0.742265284, -0.589871407, 0.176538393, -0.193092793, -0.942211509, 0.140385404, 0.755953372,
0.540657997, 0.375524789, -0.0577179007, 0.924719214, -0.924153626, 0.444680214, -0.179501697, -0.167958498, 0.45866999, 0.580934584,
0.849926472, 0.109615199, -0.524746716, -0.860624671, 0.00284310011, -0.521709383, -0.324658692, -0.234638005, 0.451520085, 0.486135304,
0.896438301, 0.112021998, -0.779160678, 0.185202003, 0.191256702, -0.483522594, 0.218492001, -0.647975624, 0.187185094, -0.323133886,
-0.510822117, -0.972351313, -0.951620281, 0.00675310008, 0.00834740046, 0.498754114, 0.0312522985, -0.1858266, -0.404426605, -0.888210714,
0.58588022, 0.862757981, -0.516673028, -0.422646195, 0.873048186, 0.84568429, 0.338724613, -0.662296891, 0.4158355, 0.9059394,
0.0398470983, -0.429160893, 0.343622714, -0.781597793, 0.00800119992, -0.918136418, 0.80089432, -0.559744716, 0.228534296, 0.967743814,
-0.545383096, 0.188983694, 0.943036377, -0.308491498, -0.605724692, -0.706837475, 0.942196071, 0.761826813, -0.726012886, 0.216549695,
0.335077196, 0.703499377, -0.556281388, -0.317077786, -0.888697207, 0.93342942, 0.393858492, -0.53617692, -0.261808395, 0.677252173,
-0.722709119, 0.873097599, 0.896187305, 0.416285306, 0.457858294, -0.341091007, -0.364947289, 0.61454469, -0.524617493, 0.749686778,
-0.200038105, -0.727918804, 0.668009281, -0.134184897, -0.408724397, 0.362802893, -0.360237986, 0.782345772, -0.0795715004, 0.523796201,
0.420205891, 0.515234172, 0.105253503, 0.430479109, -0.1104692, 0.114104703, 0.789794326, 0.579252601, 0.634009302, -0.133253604,
-0.288384795, -0.0440398008, -0.521498978, -0.70380199, 0.408737391, -0.838253379, 0.241491303, -0.63460809, -0.218813106, 0.0726189017,
0.823992193, 0.327230513, 0.904498577, -0.268228114, 0.849437773, 0.262548715, 0.0943379998, -0.0356066003, 0.299357414, -0.642424405,
-0.78963393, -0.849332392, 0.441548407, 0.386324286, 0.482951492, 0.441367507, 0.630747199, 0.78476429, -0.759015679, 0.332778603,
-0.1225086, 0.3406187, -0.589752018, -0.325273812, 0.622583687, 0.202983901, 0.0402103998, 0.305242389, -0.601332903, -0.286152005,
-0.500567615, -0.71460849, -0.243144602, -0.679154873, 0.109032698, -0.583091021, 0.717172503, 0.0362886004, 0.541548193, 0.26068759,
-0.248381793, 0.693996608, -0.0428530984, 0.328653693, -0.29270789, -0.159723505, 0.717482984, 0.105204798, 0.525417686, 0.177151501,
0.944246411, 0.109288499, 0.644120216, -0.234488606, -0.800388694, 0.681313515, 0.6007514, 0.849302828, -0.409468114, -0.108266801,
-0.373134494, -0.208387896, -0.294187307, -0.208872601, 0.117994897, -0.4274894, -0.684525192, 0.407798409, 0.727530479, -0.391904503,
-0.425748408, -0.957534492, 0.618176281, 0.0877565965, -0.871085703, 0.149583802, -0.143179893, 0.228193805, 0.812556684, 0.670930207,
-0.995988011, -0.457610309, 0.698671103, -0.914329708, -0.862569094, 0.0644711033, -0.391401291, -0.818427622, -0.101278797, -0.775691092,
0.0414392985, -0.936771929, -0.795265794, -0.0203946996, 0.541032195, 0.790376306, 0.436494291, 0.894263208, -0.439905494, 0.827117383,
-0.286773711, 0.442641407, 0.418302298, -0.555160582, 0.307079405, -0.096326299, 0.522499323, -0.319669604, -0.548196018, 0.714833379,
0.226073906, 0.965774179, 0.991574526, -0.180664107, 0.106199697, -0.661818802, 0.115900099, 0.974264622, -0.675025582, -0.567339897,
-0.805220425, 0.546625078, 0.336928815, 0.203928202, 0.327655792, 0.404643208, -0.352192104, -0.616125882, 0.715035617, 0.623004198,
0.127418801, -0.217651904, -0.357478291, -0.448123515, 0.694158912, -0.945614398, -0.73166877, 0.66674751, -0.699104071, -0.142905995,
-0.325673193, -0.507728398, -0.649855196, 0.177196994, 0.854862273, -0.293930501, 0.807789207, -0.834672391, -0.0996678025, 0.271169513,
0.70522958, -0.254064888, -0.911001325, 0.597571075, 0.638408422, -0.794679403, -0.968765318, -0.885307312, 0.569161892, -0.281110108,
-0.0807373002, 0.300397396, -0.425495088, 0.222531796, 0.890331209, -0.696399927, 0.572849214, 0.170960099, 0.0022648999, -0.117549904,
-0.556021094, 0.440208405, -0.305878997, -0.412281811, 0.437901199, 0.452433586, -0.704138994, -0.452343911, -0.7876665, -0.81571579,
0.278278112, 0.0401664004, -0.412676603, 0.188282907, 0.418323398, -0.874683678, 0.219221994, -0.982532024, 0.117632598, 0.927816808,
-0.5806517, -0.656986296, 0.720256984, 0.212620497, -0.808343589, -0.927376509, 0.704220414, -0.295130014, -0.437147707, -0.850211203,
-0.647080481, 0.295189708, -0.490016997, 0.936013997, 0.724207103, -0.810290992, 0.623048782, -0.665142119, -0.208312199, -0.694499373,
0.0207221992, -0.0512377992, -0.806504726, -0.827170193, -0.178643003, -0.449083298, -0.521669924, -0.0653493032, -0.907016993, 0.335092813,
0.869187772, 0.631294072, 0.560895622, -0.176224902, -0.340681702, -0.701110125, 0.116322599, 0.528732777, -0.0337958001, 0.104594298,
0.533409476, -0.564547122, 0.857042611, 0.524332583, 0.968942583, 0.59229821, -0.738315582, -0.285384893, 0.225036904, -0.119197197,
0.362497211, -0.105620101, -0.73931241, -0.482818812, 0.464117706, -0.78422147, -0.481404811, 0.828565121, 0.221505493, -0.126125306,
-0.788832128, 0.841565728, -0.728613198, -0.301868796, -0.402286589, 0.384309709, 0.554953814, 0.223754898, -0.66194272, -0.749055088,
0.50033462, -0.0154611999, 0.599297404, -0.481725395, 0.758723974, -0.178742602, -0.605163813, -0.176084206, 0.72369951, 0.1333379,
0.62928021, -0.0122218002, -0.465478301, -0.328729808, -0.956425726, 0.698325813, 0.696308017, 0.491405904, -0.0834920034, 0.970108628,
0.532965899, 0.784586072, 0.251158595, -0.0717744976, -0.327034295, -0.723314881, 0.231954798, -0.91031152, 0.219021499, 0.0899795964,
-0.765830815, 0.244772896, 0.329558015, -0.233910203, 0.728688598, 0.00625520013, 0.927131295, -0.999225795, 0.300374597, -0.1031534,
-0.546798229, 0.732225895, 0.925521612, -0.993772388, -0.654749095, -0.672264278, 0.875799298, -0.657975614, -0.790332794, -0.689408422,
0.711856186, -0.1930895, 0.135597393, 0.973528385, -0.197256804, -0.579489529, -0.497433096, 0.637269378, 0.49763, 0.0482631996,
0.25666061, -0.593711495, 0.0126552004, -0.117821597, 0.546414971, -0.245423704, 0.451879114, 0.3386226, -0.369519591, 0.895749986,
-0.583071709, 0.888645828, -0.0658110976, 0.356094301, -0.136340499, 0.356397212, 0.713039994, 0.456458896, 0.906124473, -0.483127892,
0.177439198, 0.776081204, 0.3387734, 0.00701039983, 0.111649901, -0.911853671, -0.397608191, 0.0164876003, -0.204355597, -0.894400895,
-0.4426561, -0.158287302, -0.373450309, 0.0462314002, -0.444766104, -0.485416293, 0.496545613, -0.858632028, -0.503069103, 0.931846499,
0.349722087, -0.0798934996, 0.719304502, 0.230691701, 0.612751007, -0.311122686, -0.888125002, -0.941669285, 0.476470202, 0.293622702,
-0.740546286, 0.093264401, 0.880661011, -0.535830021, 0.943713903, 0.393293709, -0.172680497, 0.522825301, -0.321942002, -0.989417672,
0.326291114, 0.132635206, 0.306943893, 0.767137229, 0.620953977, -0.101447202, -0.269968092, 0.840718329, 0.215625793, -0.314653486,
0.0644031987, -0.200902596, -0.744383812, -0.973111093, -0.572776914, 0.872576475, -0.394295305, 0.677680671, -0.333368003, -0.933986783,
-0.616622508, -0.517750919, -0.479254901, 0.123015597, 0.570159614, -0.916889012, 0.233746707, -0.757052302, -0.874965191, 0.760596216,
-0.97728622, 0.633255422, -0.730448723, -0.106832601, 0.703320622, 0.834107816, 0.186883897, -0.943541408, 0.953964889, 0.75001663,
0.755376518, 0.0117100999, 0.571667612, -0.747011721, 0.545113981, 0.230479598, 0.740966201, 0.477038711, -0.249129802, -0.4073506,
-0.209407106, 0.512165725, 0.4289262, -0.156218797, -0.345183104, -0.779061317, 0.419129193, 0.507018685, 0.83187288, 0.152977094,
0.788139105, 0.00436680019, 0.442727208, 0.62912631, -0.6666798, -0.077942498, -0.52106303, 0.135309696, 0.834929109, -0.214757994,
-0.156057805, -0.305950105, 0.249430299, -0.321043491, 0.663552701, -0.49549371, 0.756372273, 0.769424021, -0.0936999992, 0.772229016,
0.107183598, 0.312412411, -0.246300906, 0.304869205, 0.134732395, -0.033837501, -0.136370197, 0.436001509, -0.540661812, -0.640348673,
-0.58115828, -0.464027703, -0.389819413, -0.845703721, 0.715373397, -0.61436218, -0.213376403, 0.231717899, -0.994696975, -0.583354294,
-0.956386507, -0.254964113, 0.636568904, -0.370164812, 0.771853507, -0.811156392, -0.861756682, -0.434455901, 0.991910696, 0.778064311,
-0.523137689, -0.112030603, -0.800878406, 0.000938199984, -0.896644473, -0.616881728, 0.819592297, 0.894758701, -0.765754998, 0.898598492,
0.526220381, -0.777733207, -0.192282602, -0.988280594, 0.41372171, -0.959741116, 0.805680096, -0.40963009, -0.59066999, -0.607374907,
0.993171275, -0.295823812, -0.666457415, 0.762446284, -0.473631889, 0.552893579, 0.8394714, -0.615986705, 0.210504606, 0.387205899,
-0.697575688, -0.563018024, 0.26100111, 0.27736491, -0.860692203, -0.589733601, -0.714190722, -0.0850808993, 0.965012491, 0.218463197,
-0.408918291, 0.982888699, -0.83279258, -0.982906103, 0.33776179, 0.709415197, -0.256769687, 0.628139973, 0.676675975, 0.497144014,
-0.856730282, 0.461834699, -0.828690588, -0.860683918, -0.220746398, 0.601855695, -0.65442282, 0.0181901008, -0.869133711, 0.942583323,
-0.743101895, -0.938031197, 0.234436601, -0.0604506992, -0.653550327, 0.941181481, 0.457934201, -0.627419174, 0.900507987, -0.368781686,
0.439593613, -0.677434683, -0.0360311009, 0.806262493, -0.949325204, 0.310417891, -0.209819898, 0.0314735994, -0.83980298, 0.104029402,
-0.0752869025, 0.667983711, -0.605701089, -0.914634585, 0.783917606, -0.688797474, 0.316197991, -0.840536416, -0.867511809, 0.296734303,
0.107890502, 0.636352777, -0.388183892, 0.601749301, 0.547917306, 0.244980901, -0.508283615, 0.303022802, 0.360968411, -0.957374394,
-0.419920415, -0.087337099, 0.830752909, 0.8051036, -0.198478505, -0.227819398, -0.983612478, -0.4968476, 0.49614051, -0.744510472,
-0.825108409, 0.974950671, -0.689571083, 0.848478794, 0.355663598, 0.341995001, 0.0490949005, -0.856262982, 0.212362096, 0.674884379,
0.109148599, 0.901180625, 0.989835083, 0.00183309999, -0.523407817, -0.145521402, 0.768182099, 0.152338296, -0.0375693999, 0.135252297,
0.540939212, -0.703813493, 0.993188977, -0.339209497, 0.257667899, 0.0901537016, -0.278049707, -0.788330913, -0.344949603, 0.691160083,
-0.0174250994, 0.444445908, -0.975557506, 0.214130104, -0.567183077, -0.647862196, 0.122878097, 0.0628866032, 0.633751094, 0.330597699,
-0.498481303, -0.560666502, 0.46887061, -0.00638929987, -0.202705398, -0.122626901, 0.540621996, -0.876490474, -0.898578882, 0.134916693};
static const float ht_az1[4] = {
0, 0, 2.09439516, -2.09439492};
static const float ht_ci1[4] = {
1, -0.333333313, -0.333333313, -0.333333313};
static const float ht_az2[9] = {
0, 0, -1.95667934, 1.95668149, -1.95667911, -3.14159179, 1.95668125, 0.687123716, -0.687120795};
static const float ht_ci2[9] = {
1, -0.710548222, 0.3552742, 0.355274111, -0.747560322, 0.00975759979, -0.747560799, 0.242680997, 0.242682204};
static const float ht_az3[16] = {
0, 0, 1.11990714, -0.252831995, 1.15558636, 2.04048061, -1.38118064, 0.270692289, -2.20417261, 2.29726744,
-2.80293131, 3.01095581, 2.15491867, -0.635288298, -1.41973042, -2.46809244};
static const float ht_ci3[16] = {
1, 0.656898677, -0.444998085, -0.859509826, 0.472543508, -0.165053293, -0.4449974, -0.165053606, 0.00191590004, 0.608135402,
0.608135402, -0.191489294, -0.881512523, 0.00191570004, 0.578455329, -0.775385976};
static const float ht_az4[25] = {
0, 0, -2.00758791, 1.92763686, -1.41208386, -2.1000061, 2.51292729, 1.66763306, 1.44238305, -0.600620687,
0.329967499, -1.18621445, 2.98333192, -2.69221592, 0.5076015, 2.20897722, 0.952319086, -1.71564543, 0.934401691, -0.386535108,
2.6759584, -2.62841702, 0.165012196, -1.02504349, -3.13120842};
static const float ht_ci4[25] = {
1, 0.679865003, -0.167530403, 0.748965502, 0.232371897, 0.643578887, 0.302287489, 0.130278006, -0.626859903, 0.136416495,
-0.968033493, -0.419702411, -0.229791999, 0.173361793, -0.564629972, -0.372785091, -0.0093938997, -0.848853409, 0.641305804, -0.566406429,
-0.863375127, -0.583563805, 0.0540298, 0.754891694, 0.723074615};
static const float ht_az5[36] = {
0, 0, -1.19665992, 0.184065893, 0.124281503, -2.84022474, -1.84701145, 0.698757887, 2.28023863, -2.28482103,
-2.37568831, 2.88341093, -1.18503547, -2.76846337, 0.763487577, -0.464913696, -2.27504182, 1.76213765, 2.80448556, -1.69175446,
-1.03209734, 0.509415329, -1.95737314, -0.567003012, 2.3196187, 2.85323334, -3.07101274, 2.11313152, -1.50877047, -0.654037297,
1.4642266, 1.3731271, 1.11275125, 2.1139493, 0.0571371987, 1.45792532};
static const float ht_ci5[36] = {
1, -0.438653409, 0.318113804, -0.922836721, 0.811796129, -0.192488894, 0.479672015, -0.615900397, -0.575595021, -0.554733574,
0.811459601, 0.327173799, 0.823398292, 0.423091412, 0.488300413, -0.0637672991, 0.0482475013, -0.147848099, 0.810927629, -0.125444904,
-0.239176393, -0.0637800992, -0.945911229, 0.515998006, 0.0436330996, -0.28695339, -0.745377481, -0.936982393, -0.64927119, -0.699447811,
-0.649893403, 0.836487591, -0.122356497, 0.563498616, 0.301904589, 0.372715712};
static const float ht_az6[49] = {
0, 0, 3.02445412, 2.08064198, -2.21373343, -2.03597689, 1.67801356, 0.964363396, -3.03551865, -2.70206428,
0.581054807, -2.80103135, 0.550136328, -1.98436165, -0.512116075, -1.14110434, -2.48764729, -1.62282312, -0.575063288, 2.28620362,
-0.0874063, 0.547028422, 1.87896526, 2.7467165, -0.760250092, -1.01978469, 1.16210699, 1.50714779, 1.06270576, -2.68134952,
-1.08376932, 2.91351986, 2.9390986, -1.53965998, 0.473237693, -1.95521688, 1.29499376, 0.887936115, 2.42754817, -0.0160776004,
1.97198975, -1.35341239, 2.65118337, -0.576470077, 1.857517, -0.779155195, -2.01121449, 3.0877676, -0.00445789983};
static const float ht_ci6[49] = {
1, 0.659493387, -0.303500503, 0.0683782026, -0.475626588, -0.0187771004, 0.413271308, -0.256830394, 0.178360298, -0.247033402,
0.879201472, -0.704111695, 0.442019701, 0.500305295, -0.00624530017, -0.709301114, 0.226206705, -0.406033695, -0.490521014, 0.541432381,
-0.762763321, -0.584934294, -0.431979597, -0.710118592, 0.866308272, 0.244682193, 0.659492671, -0.0817269981, 0.224120095, 0.651142299,
-0.246527195, 0.542960703, 0.876778007, 0.134968102, -0.0574718006, -0.827908814, -0.617874086, -0.911502182, -0.349530607, 0.199298501,
-0.822096586, 0.630087972, 0.112197302, 0.504217029, 0.843425512, -0.956853628, 0.867971182, -0.967481971, -0.320912898};
static const float *const ht_az[7] = {0, ht_az1, ht_az2, ht_az3, ht_az4, ht_az5, ht_az6};
static const float *const ht_ci[7] = {0, ht_ci1, ht_ci2, ht_ci3, ht_ci4, ht_ci5, ht_ci6};
static const int ht_spk_az[51] = {30, 330, 0, 110, 250, 22, 338, 135, 225, 180, 90, 270, 60, 300, 30, 330, 0, 135, 225, 180, 90, 270, 0, 45, 315, 0, 110, 250, 45, 315, 45, 315, 150, 210, 22, 338, 60, 300, 22, 338, 30, 330, 60, 300, 90, 270, 110, 250, 135, 225, 180};
static const float ht_spk_ci[51] = {
0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
0, 0, 0, 0, 0.573576391, 0.573576391, 0.573576391, 0.573576391, 0.573576391, 0.573576391,
0.573576391, 0.573576391, 1, -0.258819014, -0.258819014, -0.258819014, 0.573576391, 0.573576391, 0.573576391, 0.573576391,
0, 0, 0, 0, 0.573576391, 0.573576391, 0.573576391, 0.573576391, -0.258819014, -0.258819014,
-0.258819014, -0.258819014, -0.258819014, -0.258819014, -0.258819014, -0.258819014, -0.258819014, -0.258819014, -0.258819014, -0.258819014,
-0.258819014};
static const float ht_q0[1] = {
1};
static const float ht_q1[16] = {
1, 0, 1.73205101, -0, 1, 0, -0.57735002, 1.63299298, 1, 1.41421294,
-0.57735002, -0.816496015, 1, -1.41421294, -0.57735002, -0.816496015};
static const float ht_q2[81] = {
1, 0, 1.73205101, -0, 0, 0, 2.23606801, -0, 0, 1,
0, -1.23070502, 1.21875501, 0, -0, 0.575380981, -1.93639898, 0.958797991, 1, -1.5,
0.615352988, -0.609376013, 1.18005204, -1.19162595, -0.694679976, -0.484099001, -1.212672, 1, 1.49999905, 0.615352988,
-0.609378994, -1.18005705, 1.191625, -0.694679976, -0.484100997, -1.21266699, 1, -1.06582296, -1.29481196, -0.432990998,
0.595782995, 1.78162599, 0.756394029, 0.723785996, -0.61225301, 1, -9.99999997e-07, 0.0169009995, -1.73196805, 3.00000011e-06,
-0, -1.11771405, -0.0377889983, 1.93630695, 1, 1.06582201, -1.29481304, -0.432992995, -0.595785022, -1.78162396,
0.756395996, 0.723788977, -0.61224997, 1, 1.06582403, 0.420336008, 1.29897499, 1.78735495, 0.578370988, -0.920497,
0.704890013, 0.355897009, 1, -1.06581998, 0.420338005, 1.29897797, -1.78735197, -0.578372002, -0.920494974, 0.70489502,
0.355906993};
static const float ht_q3[256] = {
1, 0, 1.73205101, -0, 0, 0, 2.23606801, -0, 0, 0,
0, 0, 2.645751, -0, 0, -0, 1, 0, 1.13778198, 1.30593002,
0, 0, 0.329313993, 1.91824102, 1.10086405, 0, 0, 0, -0.732059002, 1.41408205,
1.91329205, 0.896533012, 1, 1.396088, -0.770758986, 0.675918996, 1.218238, -1.38917196, -0.453842998, -0.672571003,
-0.96320802, -0.325084001, -1.43429804, -0.012906, 1.18317199, -0.00624899985, 1.13403797, -1.46661699, 1, -0.221450999,
-1.48871398, 0.857138991, -0.245049, 0.425612003, 1.359833, -1.64735496, 0.442582995, -0.192103997, 0.557254016, -0.558013976,
-0.788851976, 2.15982509, -1.00645602, 0.202728003, 1, 1.39676702, 0.818468988, 0.615750015, 1.11033201, 1.47588003,
-0.36907199, 0.650626004, -1.01460004, -0.457401007, 1.38817406, 0.152197003, -1.17741501, 0.0670939982, -1.26848602, -1.35673499,
1, 1.52330601, -0.285881013, -0.773181975, -1.52052498, -0.562206984, -1.02665901, 0.285358995, -1.11196494, -0.323166996,
0.663998008, -1.230829, 0.62529403, 0.624729991, 0.485583991, 1.98056901, 1, -1.52330601, -0.770757973, 0.292355001,
-0.574939013, 1.51575696, -0.453844994, -0.290906012, -1.44267905, 1.26565099, 0.676904976, 0.0140869999, 1.18317199, -0.00270300009,
1.698542, -0.809184015, 1, 0.456795007, -0.285881013, 1.64608896, 0.970732987, -0.168589994, -1.02665901, -0.607523978,
1.61435497, 1.45634198, -0.423909992, -0.369089991, 0.625294983, -1.330037, -0.704973996, 1.38063705, 1, -1.396088,
0.00331799989, -1.02514601, 1.84766495, -0.00598100014, -1.11802101, -0.00439199992, -0.579746008, -0.676460981, 0.00936600007, 1.305897,
-0.00760299992, 0.958918989, -0.00293900003, 1.97923005, 1, 1.02781403, 1.053321, -0.913296998, -1.21185601, 1.39765406,
0.122409001, -1.24193096, -0.143487006, 0.598232985, -1.94984698, 0.816393971, -0.92584902, -0.725432992, -0.230866998, 0.858466983,
1, -0.456795007, 1.053321, -1.29686201, 0.764786005, -0.621164978, 0.122409001, -1.763515, 0.950940013, -0.889396012,
1.23052204, -0.362832993, -0.92584902, -1.03009903, 1.530038, -0.551199973, 1, 0.221450999, -0.331669003, -1.68551302,
-0.481875002, -0.094821997, -0.995045006, 0.721708, 1.80217302, 0.755379021, 0.244133994, -0.169170007, 0.713505983, 1.287588,
-0.913039982, -1.827721, 1, 0.682210982, -1.526824, -0.450993001, -0.397204012, -1.34472096, 1.48831904, 0.888962984,
-0.169130996, 0.0397569984, 0.926383018, 1.84126794, -1.03240097, -1.217219, 0.394457996, 0.216551006, 1, -1.02781403,
0.00331799989, 1.39412606, -1.84986901, -0.00440300023, -1.11802101, 0.00597199984, 0.572676003, -1.97531796, -0.00937599968, 0.96141398,
-0.00760299992, -1.30406201, 0.00290299999, -0.687802017, 1, -1.39676702, 1.00191402, 0.212623999, -0.383406997, -1.80666995,
0.00428400002, 0.275020987, -1.23015594, 1.02067494, -0.586785018, -0.879382014, -1.01541197, 0.133864, -1.88269198, -0.497074008,
1, -0.682210982, -1.34300804, -0.854937017, 0.752969027, 1.18282902, 0.89853102, 1.48230302, 0.171381995, -0.474355012,
-1.54470098, -1.28020406, -0.00627500005, -1.60433304, -0.351586998, 0.228965998};
static const float ht_q4[800] = {
1, -0, 0.618034005, 1.61803401, -0, -0, -0.690982997, 1.29099405, 1.68993294, -0,
-0, 0, -1.11559403, -0.550001979, 1.59540296, 1.70517898, -0, -0, 0, 0,
-0.0946040004, -1.66710997, -0.159152001, 1.82533705, 1.68955898, 1, 0.910592973, 0, 1.47336996, 1.73205101,
0, -1.11803401, 0, 0.866024971, 2.08319902, 0, -0.851781011, -0, -1.37821102, 0,
-0.187841997, 1.77482402, 0, -1.5, -0, 1.125, -0, -0.75, -0, -1.33111799,
1, -0, -0.618034005, 1.61803401, -0, 0, -0.690982997, -1.29099405, 1.68993294, -0,
0, 0, 1.11559403, -0.550001979, -1.59540296, 1.70517898, -0, 0, 0, -0,
-0.0946040004, 1.66710997, -0.159152001, -1.82533705, 1.68955898, 1, -0.910592973, 0, 1.47336996, -1.73205101,
-0, -1.11803401, 0, 0.866024971, -2.08319902, -0, 0.851781011, -0, -1.37821102, 0,
-0.187841997, -1.77482402, -0, 1.5, 0, 1.125, -0, -0.75, -0, -1.33111799,
1, -0, 1.47336996, 0.910592973, -0, -0, 1.30901694, 1.73205101, 0.535233021, -0,
-0, -0, 0.695477009, 2.2299931, 1.20460105, 0.303934008, -0, -0, -0, -0,
-0.143236995, 2.19052601, 1.88434601, 0.775626004, 0.169479996, 1, 1, 1, 1, 1.29099405,
1.29099405, 0, 1.29099405, 0, 0.805076003, 1.97202599, 0.62361002, -1.01835001, 0.62361002, 0,
-0.805076003, 0, 1.39443302, 1.49071205, -0.527046025, -1.16666603, -0.527046025, 0, -1.39443302, -0.986012995,
1, 1.61803401, 0, 0.618034005, 1.29099405, 0, -1.11803401, 0, -1.44337499, -0.958832026,
0, -1.51353204, -0, -0.578118026, -0, -1.858935, -2.20479298, -0, -1.11803401, -0,
1.125, -0, 1.25, -0, 0.246502995, 1, 1, -1, 1, 1.29099405,
-1.29099405, 0, -1.29099405, 0, 0.805076003, -1.97202599, 0.62361002, 1.01835001, 0.62361002, -0,
-0.805076003, 0, -1.39443302, 1.49071205, 0.527046025, -1.16666603, 0.527046025, 0, 1.39443302, -0.986012995,
1, -0, -1.47336996, 0.910592973, -0, -0, 1.30901694, -1.73205101, 0.535233021, -0,
-0, -0, -0.695477009, 2.2299931, -1.20460105, 0.303934008, -0, -0, -0, -0,
-0.143236995, -2.19052601, 1.88434601, -0.775626004, 0.169479996, 1, -1, -1, 1, -1.29099405,
1.29099405, 0, -1.29099405, -0, -0.805076003, 1.97202599, -0.62361002, 1.01835001, 0.62361002, 0,
-0.805076003, 0, 1.39443302, -1.49071205, -0.527046025, -1.16666603, 0.527046025, -0, 1.39443302, -0.986012995,
1, -1.61803401, 0, 0.618034005, -1.29099405, -0, -1.11803401, 0, -1.44337499, 0.958832026,
-0, 1.51353204, -0, -0.578118026, -0, -1.858935, 2.20479298, 0, 1.11803401, 0,
1.125, -0, 1.25, -0, 0.246502995, 1, -1, 1, 1, -1.29099405,
-1.29099405, 0, 1.29099405, -0, -0.805076003, -1.97202599, -0.62361002, -1.01835001, 0.62361002, -0,
-0.805076003, 0, -1.39443302, -1.49071205, 0.527046025, -1.16666603, -0.527046025, -0, -1.39443302, -0.986012995,
1, 0.618034005, 1.61803401, 0, 0, 1.29099405, 1.80901694, 0, -0.246557996, -0.0950260013,
0, 1.94443595, 1.68486905, 0, -0.60939002, -0, -0, -0.266312987, 0, 2.45767903,
1.30293798, 0, -1.09084702, -0, 0.035964001, 1, 1.47336996, 0.910592973, 0, 0,
1.73205101, -0.190982997, 0, -1.40125799, -1.28748703, 0, 0.526430011, -1.12530506, 0, -1.94908595,
-0, -0, -2.030617, 0, -1.129866, -0.981763005, -0, -1.13434601, -0, 1.16163695,
1, 1.47336996, -0.910592973, -0, -0, -1.73205101, -0.190982997, 0, -1.40125799, -1.28748703,
0, 0.526430011, 1.12530506, -0, 1.94908595, 0, 0, 2.030617, -0, 1.129866,
-0.981763005, -0, -1.13434601, -0, 1.16163695, 1, 0.618034005, -1.61803401, 0, 0,
-1.29099405, 1.80901694, -0, -0.246557996, -0.0950260013, -0, 1.94443595, -1.68486905, 0, 0.60939002,
-0, -0, 0.266312987, 0, -2.45767903, 1.30293798, -0, -1.09084702, 0, 0.035964001,
1, 0, 0.618034005, -1.61803401, -0, 0, -0.690982997, -1.29099405, 1.68993294, 0,
-0, -0, -1.11559403, 0.550001979, 1.59540296, -1.70517898, -0, 0, 0, -0,
-0.0946040004, 1.66710997, -0.159152001, -1.82533705, 1.68955898, 1, -0.910592973, 0, -1.47336996, 1.73205101,
-0, -1.11803401, -0, 0.866024971, -2.08319902, 0, 0.851781011, -0, 1.37821102, 0,
0.187841997, 1.77482402, -0, -1.5, 0, 1.125, 0, -0.75, 0, -1.33111799,
1, 0, -0.618034005, -1.61803401, -0, -0, -0.690982997, 1.29099405, 1.68993294, 0,
0, -0, 1.11559403, 0.550001979, -1.59540296, -1.70517898, -0, -0, 0, 0,
-0.0946040004, -1.66710997, -0.159152001, 1.82533705, 1.68955898, 1, 0.910592973, 0, -1.47336996, -1.73205101,
0, -1.11803401, -0, 0.866024971, 2.08319902, -0, -0.851781011, -0, 1.37821102, 0,
0.187841997, -1.77482402, 0, 1.5, -0, 1.125, 0, -0.75, 0, -1.33111799,
1, 0, 1.47336996, -0.910592973, -0, 0, 1.30901694, -1.73205101, 0.535233021, 0,
-0, 0, 0.695477009, -2.2299931, 1.20460105, -0.303934008, -0, 0, -0, 0,
-0.143236995, -2.19052601, 1.88434601, -0.775626004, 0.169479996, 1, -1, 1, -1, 1.29099405,
-1.29099405, 0, -1.29099405, 0, -0.805076003, 1.97202599, -0.62361002, -1.01835001, -0.62361002, 0,
0.805076003, 0, -1.39443302, 1.49071205, 0.527046025, -1.16666603, 0.527046025, 0, 1.39443302, -0.986012995,
1, -1.61803401, 0, -0.618034005, 1.29099405, -0, -1.11803401, -0, -1.44337499, 0.958832026,
0, 1.51353204, -0, 0.578118026, -0, 1.858935, -2.20479298, 0, -1.11803401, 0,
1.125, 0, 1.25, 0, 0.246502995, 1, -1, -1, -1, 1.29099405,
1.29099405, 0, 1.29099405, 0, -0.805076003, -1.97202599, -0.62361002, 1.01835001, -0.62361002, -0,
0.805076003, 0, 1.39443302, 1.49071205, -0.527046025, -1.16666603, -0.527046025, 0, -1.39443302, -0.986012995,
1, 0, -1.47336996, -0.910592973, -0, -0, 1.30901694, 1.73205101, 0.535233021, 0,
0, 0, -0.695477009, -2.2299931, -1.20460105, -0.303934008, -0, -0, -0, -0,
-0.143236995, 2.19052601, 1.88434601, 0.775626004, 0.169479996, 1, 1, -1, -1, -1.29099405,
-1.29099405, 0, 1.29099405, -0, 0.805076003, 1.97202599, 0.62361002, 1.01835001, -0.62361002, 0,
0.805076003, 0, -1.39443302, -1.49071205, 0.527046025, -1.16666603, -0.527046025, -0, -1.39443302, -0.986012995,
1, 1.61803401, 0, -0.618034005, -1.29099405, 0, -1.11803401, -0, -1.44337499, -0.958832026,
-0, -1.51353204, -0, 0.578118026, -0, 1.858935, 2.20479298, -0, 1.11803401, -0,
1.125, 0, 1.25, 0, 0.246502995, 1, 1, 1, -1, -1.29099405,
1.29099405, 0, -1.29099405, -0, 0.805076003, -1.97202599, 0.62361002, -1.01835001, -0.62361002, -0,
0.805076003, 0, 1.39443302, -1.49071205, -0.527046025, -1.16666603, 0.527046025, -0, 1.39443302, -0.986012995,
1, -0.618034005, 1.61803401, -0, 0, -1.29099405, 1.80901694, -0, -0.246557996, 0.0950260013,
0, -1.94443595, 1.68486905, -0, -0.60939002, 0, -0, 0.266312987, 0, -2.45767903,
1.30293798, -0, -1.09084702, 0, 0.035964001, 1, -1.47336996, 0.910592973, -0, 0,
-1.73205101, -0.190982997, -0, -1.40125799, 1.28748703, 0, -0.526430011, -1.12530506, -0, -1.94908595,
0, -0, 2.030617, 0, 1.129866, -0.981763005, 0, -1.13434601, 0, 1.16163695,
1, -1.47336996, -0.910592973, -0, 0, 1.73205101, -0.190982997, 0, -1.40125799, 1.28748703,
-0, -0.526430011, 1.12530506, -0, 1.94908595, 0, -0, -2.030617, 0, -1.129866,
-0.981763005, -0, -1.13434601, -0, 1.16163695, 1, -0.618034005, -1.61803401, -0, 0,
1.29099405, 1.80901694, 0, -0.246557996, 0.0950260013, -0, -1.94443595, -1.68486905, -0, 0.60939002,
0, -0, -0.266312987, 0, 2.45767903, 1.30293798, 0, -1.09084702, -0, 0.035964001};
static const float ht_q5[1296] = {
1, 0, 1.73205101, -0, 0, 0, 2.23606801, -0, 0, 0,
0, 0, 2.645751, -0, 0, -0, 0, 0, 0, 0,
3, -0, 0, -0, 0, 0, 0, 0, 0, 0,
3.31662512, -0, 0, -0, 0, -0, 1, 0, -0.759769976, 1.55651796,
0, -0, -0.472647995, -1.52672505, 1.56387806, 0, -0, -0, 1.18256998, -0.0552049987,
-1.81498694, 1.51799297, 0, -0, 0, 0, -0.553745985, 1.545506, 0.469850987, -1.99761903,
1.44690394, 0, -0, 0, 0, -0, -0.702573001, -1.32219601, 1.27239799, 0.921021998,
-2.10502696, 1.36373401, 1, -1.52848196, 0.550988972, 0.600126982, -1.18420804, -1.08724594, -0.778611004, 0.426885009,
-1.27557099, 0.772659004, -0.996689022, 0.706328988, -1.04954505, -0.277325988, -1.07358396, -1.60613501, 1.78729606, 0.737380981,
0.299077004, 1.52576303, 0.120949, -0.599059999, 0.322151005, -1.53280199, 0.132952005, 0.526440978, 1.88571298, -0.0571670011,
1.15104306, 0.285789996, 1.12910497, -0.112209, 1.23984599, 0.118832998, 0.140273005, 1.70253205, 1, 0.122111,
-1.5984, 0.655901015, 0.103399001, -0.251980007, 1.73841202, -1.35346794, 0.268072009, 0.0627069995, -0.25245899, 0.372159004,
-1.53593302, 1.99899495, -0.654523015, 0.101774, 0.0327970013, -0.173603997, 0.444274992, -0.456959009, 1.06335199, -2.45448208,
1.15182102, -0.281762987, 0.0361890011, 0.0157009996, -0.100382, 0.346518993, -0.650961995, 0.487652004, -0.412449002, 2.61934495,
-1.687675, 0.562408984, -0.110763997, 0.0119479997, 1, 0.125376999, 1.40607202, 1.00361395, 0.162446007, 0.227587998,
1.09236205, 1.82179201, 0.64002502, 0.151710004, 0.348903, 0.269163013, 0.316870987, 2.15459609, 1.37465298, 0.387867004,
0.123017997, 0.36947301, 0.50829798, 0.224813998, -0.588733971, 1.79958797, 2.00265598, 0.944607019, 0.226729006, 0.0919739977,
0.331216991, 0.620292008, 0.565304995, 0.103915997, -1.26884794, 0.831827998, 2.22726107, 1.58586001, 0.610451996, 0.128447995,
1, -0.504504025, -0.333400011, -1.62305796, 1.05711806, 0.217148006, -0.99375701, 0.698593974, 1.53615105, -1.553262,
-0.538366973, 0.38449201, 0.716741979, 1.23696399, -0.782326996, -1.22223794, 1.92141604, 0.89695698, -0.678045988, -0.364437014,
0.726184011, -1.17244399, -0.985301018, 0.705802023, 0.734930992, -2.11290407, -1.22665799, 0.858424008, 0.793542981, -0.238567993,
-0.996950984, -0.767507017, 1.15313601, 0.675481021, -0.469190001, -0.135318995, 1, -1.46217597, 0.830815971, -0.414469987,
0.782378972, -1.56829906, -0.346305013, -0.444552004, -1.26916003, 0.955034018, 0.992910981, -0.205743998, -1.17364001, -0.0583200008,
-1.61068106, 1.04143, -1.17489004, 1.37431002, 0.413715988, 1.33436, -0.768630981, 0.378239006, -0.671122015, 1.49863505,
0.590808988, -0.22823, -1.86912405, 0.847911, -0.510011971, 1.50385702, 0.443302989, 0.426284999, 0.827331007, 0.924616992,
0.939912975, -1.18851602, 1, 0.87777102, -1.06677103, 1.04475701, 1.18391597, -1.20886195, 0.154289007, -1.43883502,
0.207228005, 0.88477999, -1.92921495, 0.736235023, 0.898950994, 0.876294971, -0.337682009, -0.513046026, 0.290289998, -1.63480794,
1.69721603, 0.25514701, -1.25389397, 0.303685993, 0.297073007, 0.947956979, -0.803825974, -0.243599996, -0.592979014, 1.77095997,
-0.441496015, -1.04879606, 0.635290027, -1.248317, -0.0772769973, -1.02690601, 1.64198506, -0.662820995, 1, 1.07462704,
-0.996959984, -0.922631025, -1.27999997, -1.38311994, -0.00678700022, 1.18748999, -0.195956007, 0.605143011, 1.94928896, 0.659976006,
1.02295899, -0.566628993, 0.298417985, 0.97053498, 0.296779007, -1.04495203, -1.46231401, 0.576654017, -1.16155398, -0.495092005,
-0.223866999, -1.67590499, -0.946573973, -0.781759024, -0.566561997, 0.994377971, -0.0196240004, -1.32818794, 0.304589003, 1.140329,
-0.00300400006, 1.59479403, 1.80704105, 0.335712999, 1, -1.08909702, -0.960826993, -0.943758011, 1.32694101, 1.35093999,
-0.0858779997, 1.17065895, -0.190713003, -0.651426017, -1.94753504, -0.548749983, 1.07240498, -0.475520015, 0.279908001, 1.01346195,
-0.299430996, 1.08410394, 1.32625794, -0.699790001, -1.09405303, -0.606404006, -0.190614998, -1.68660402, -1.02016902, 0.843899012,
0.550906003, -0.955802023, 0.248071998, 1.33226001, 0.132266998, 1.15447199, -0.0356540009, 1.48699796, 1.87695205, 0.385531008,
1, -0.701663017, 1.40548897, -0.729566991, 0.660872996, -1.27315295, 1.09053099, -1.32378399, 0.0257789996, -0.311953992,
1.41884303, -1.50456405, 0.313809007, -1.56439698, 0.0553449988, 0.277446002, 0.0201580003, -0.759414971, 2.06570411, -1.25465596,
-0.592033029, -1.30455101, 0.080577001, 0.675408006, -0.257993996, 0.100709997, 0.0542510003, -1.27420497, 2.29500508, -0.576707006,
-1.27070999, -0.599641025, 0.0895219967, 1.13325298, -0.694341004, 0.122539997, 1, 0.417894006, 0.566681981, -1.58247805,
-0.85374397, 0.305723995, -0.75900197, -1.15771401, 1.50375104, 1.23439801, -0.739018977, -0.181685999, -1.06678498, 0.688009977,
1.30167794, -1.26148701, -1.51903498, 1.21158803, 0.185359001, -0.421368986, 0.071157001, 1.59563899, -0.326483995, -1.23817599,
0.906572998, 1.68500304, -1.64832497, -0.0374759994, 0.83197403, -0.099940002, 1.11615705, 0.378452003, -1.46540499, 0.0382979997,
0.983735025, -0.484326005, 1, -0.910646975, 1.42616796, 0.369821012, -0.434776008, -1.67665994, 1.15599597, 0.680904984,
-0.447012991, 0.153583005, -0.947163999, -2.03581405, 0.424726009, 0.826759994, -0.973821998, -0.349996001, 0.229958996, 0.379382014,
-1.41043198, -1.79258001, -0.469247013, 0.727980971, -1.45012903, -0.864558995, 0.00638400018, 0.0479759984, 0.627996027, 0.649697006,
-1.62402499, -0.98022902, -1.19481802, 0.398079008, -1.66973495, -1.48056901, 0.0174330007, 0.128233999, 1, -0.572090983,
0.732815981, -1.46140099, 1.07934105, -0.541233003, -0.517628014, -1.38257504, 1.16732001, -1.40010595, 1.20820904, 0.0561730005,
-1.17814505, 0.143492997, 1.306692, -0.678762019, 1.49077797, -1.77711797, 0.236530006, 0.57900399, -0.468252987, 1.47906101,
0.255809993, -0.861535013, 0.116935998, -1.35973096, 2.09191203, -0.709379971, -0.927622974, 0.441870987, 0.787263989, 1.12875497,
-1.00323498, -0.343901992, 0.164087996, 0.412954003, 1, 1.04513204, 0.845761001, 1.09196401, 1.47334397, 1.14115202,
-0.318291008, 1.19228601, 0.0646049976, 1.04539394, 1.90344501, 0.187886998, -1.16777599, 0.196307003, 0.0834650025, -0.916265011,
0.112625003, 1.53139901, 0.853690028, -0.930073023, -0.811231971, -0.971750021, 0.0374340005, -1.34223795, -1.28175902, -0.736702979,
0.182396993, 0.99329102, -0.898620009, -1.10859501, 0.38282901, -1.15827203, -0.039402999, -0.870598018, -2.07582092, -0.918797016,
1, -0.774977028, -0.110448003, 1.54506004, -1.54581904, 0.110503003, -1.10439503, -0.220307007, 1.15325999, -2.0467701,
0.260798991, 0.710186005, 0.251354009, -1.415887, -0.194569007, 0.364113986, -2.10935497, 0.391550988, 1.300614, -0.201079994,
1.07947099, 0.400889993, -0.97032398, -0.0696559995, -0.626838028, -1.67931402, 0.44611299, 1.63498402, -0.427210987, -0.677774012,
-0.38905099, 1.35126805, 0.318720996, -0.290858001, 0.132570997, -1.57631898, 1, -1.31845903, 0.0835670009, -1.12012601,
1.90659201, -0.142242, -1.11022604, -0.120843999, -0.312195987, -1.07510602, 0.243377998, 1.21895099, -0.190733001, 1.035586,
-0.0398520008, 1.78568304, -0.704286993, -0.155614004, -1.62425196, 0.259894997, 1.09888303, 0.220799997, 0.265964001, 0.258464009,
-2.09288907, 2.14859009, -0.112699002, 0.872754991, -0.400779009, -1.18255103, 0.296783, -1.00466204, 0.0656260028, -1.44959104,
-0.334901989, 0.857263982, 1, 1.68175304, -0.256080002, -0.325774997, -0.707300007, -0.555984974, -1.044716, 0.107699998,
-1.75714898, -1.69913101, 0.276674002, -1.40120006, 0.565376997, 0.271427989, 0.687343001, 1.09876204, 1.47053897, 0.753639996,
0.518813014, 0.969313025, 0.885357022, -0.187766999, 1.28889, -0.487349987, 1.53066802, 1.26867199, -0.721089005, 1.13168097,
-0.428723991, 1.09756601, -0.827475011, -0.212611005, -1.06508303, -0.731814027, -0.750573993, -1.79947603, 1, 0.335224986,
1.40456796, -0.956458986, -0.413929999, 0.607859015, 1.08763599, -1.73433602, 0.517970979, 0.355172008, -0.888091981, 0.717463017,
0.308973014, -2.04705596, 1.11131406, -0.222415999, -0.253686011, 0.864058018, -1.29166102, 0.596778989, -0.597231984, -1.70272195,
1.61632204, -0.541088998, 0.0573600009, 0.158568993, -0.682299018, 1.44844794, -1.43269098, 0.271867007, -1.27362394, -0.775689006,
1.792799, -0.907045007, 0.154273003, 0.0182739999, 1, -1.70581305, -0.217277005, -0.207343996, 0.456611991, 0.478486001,
-1.06525195, 0.0581610017, -1.85051596, 1.90946698, -0.151547998, 1.47009301, 0.484786987, 0.178691998, 0.614179015, 0.725001991,
-0.999781013, -0.718599021, -0.351879001, -0.846759021, 0.951215029, -0.102925003, 1.42605996, -0.272843003, 1.90256095, -1.83966994,
0.415962011, -1.35901499, 0.239448994, -1.241171, -0.723623991, -0.150866002, -0.970417976, -0.516001999, -0.791567028, -1.27156699,
1, -1.44360101, -0.414265007, 0.862785995, -1.60795796, 0.772059023, -0.926160991, -0.461430997, -0.864697993, -0.0867099985,
1.01751804, 0.964124978, 0.858703017, -0.576220989, 0.547182024, -1.91279697, 1.64514101, 0.0622170009, 0.834909976, -1.22904098,
0.524389982, 0.734552026, 0.448982, 1.37248802, -1.087273, 1.80992496, -1.305022, 0.0348800011, -1.39778399, -0.358446985,
-1.11073899, 0.214230001, -0.751673996, 0.769455016, 0.862487972, 0.870051026, 1, 0.842944026, -0.110469997, 1.50905299,
1.64220595, -0.120218001, -1.10439003, -0.215215996, 1.01129198, 2.07701802, -0.277116001, -0.772463977, 0.251403004, -1.38287902,
-0.170652002, 0.0884310007, 1.96502602, -0.397417009, -1.38169503, 0.218758002, 1.07945299, 0.391624987, -0.850865006, -0.0169200003,
-0.990427971, 1.29005301, -0.415670991, -1.65912199, 0.453938007, 0.737197995, -0.389126003, 1.31974602, 0.279540002, -0.0706389993,
0.209509999, -1.90803504, 1, -0.52045399, -1.63836598, -0.211854994, 0.142345995, 1.100824, 1.88304198, 0.448100001,
-0.145876005, 0.0285390001, -0.356243014, -1.69115698, -1.84412599, -0.688400984, 0.365076005, 0.0654719993, -0.0245689992, -0.080986999,
0.648828983, 2.19979501, 1.56661999, 0.895447016, -0.664915979, -0.185792997, 0.000601999986, 0.00296199997, 0.0770799965, 0.166893005,
-0.994988024, -2.55015802, -1.09952402, -1.03806496, 1.01965797, 0.382871002, -0.00188800006, -0.00781999994, 1, -0.796881974,
0.893734992, 1.25148594, -1.28749096, -0.919447005, -0.224990994, 1.44397295, 0.601085007, -1.30351305, -1.75768602, -0.246932998,
-1.13907695, 0.387804002, 0.820603013, -0.170699999, -0.915681005, -2.0178299, -0.963111997, 0.63974297, -0.939911008, -1.004704,
0.449643999, -0.264243007, -0.766919971, -0.323848009, -1.56707001, -1.50912797, 0.586566985, 0.915167987, 0.177204996, -1.43725204,
-0.273847997, -0.197625995, -1.31248498, -1.02303004, 1, 1.26750302, 0.0755750015, -1.17801595, -1.92763603, 0.123666003,
-1.11164796, -0.114935003, -0.141261995, 1.30442703, -0.222531006, -1.17435396, -0.172613993, 1.09144402, -0.0163070001, 1.62742996,
0.322191, 0.170748994, 1.64713395, -0.226180002, 1.10362899, 0.210212007, 0.120705999, 0.213029996, -2.18647909, -1.90797496,
0.0466260016, -1.06304204, 0.366919011, 1.14377797, 0.268934011, -1.06302595, 0.0268879998, -1.32627201, -0.316415995, 1.31238401,
1, 0.471845001, -0.497018009, -1.59070301, -0.968975008, -0.302758008, -0.841849029, 1.02067006, 1.48961198, 1.39951599,
0.735652983, -0.259653002, 0.982523978, 0.875352979, -1.13092506, -1.19254398, -1.70785201, -1.20478797, 0.355470002, 0.449337989,
0.287640005, -1.51482606, -0.546467006, 1.026613, 0.757275999, 1.86140001, 1.62539101, -0.300453991, -0.918583989, -0.0045520002,
-1.14957798, 0.015346, 1.41214597, 0.256020993, -0.720713019, -0.241460994, 1, -0.0814279988, -1.29103196, -1.15178394,
0.121078998, 0.135717005, 0.745464027, 1.91969502, 0.852041006, -0.130233005, -0.238777995, -0.135424003, 0.218961999, -1.91554201,
-1.68029499, -0.605840981, 0.122065999, 0.291218013, 0.302946001, 0.0738940015, -1.07396698, 1.04521406, 2.131845, 1.35474205,
0.420818001, -0.105883002, -0.301762998, -0.431964993, -0.264016986, 0.0223440006, 1.37340999, 0.316044986, -1.85790503, -2.00949407,
-1.04032195, -0.287476987, 1, 0.51830399, -1.62290096, -0.312334001, -0.208991006, -1.08592796, 1.826653, 0.654389024,
-0.110436, 0.0050110002, 0.518095016, 1.64341497, -1.72252405, -0.990336001, 0.273773015, 0.0890600011, 0.0273090005, -0.0140859997,
-0.931303978, -2.09176803, 1.36459804, 1.260517, -0.492121011, -0.250344008, -0.0186250005, -0.0110099996, -0.0848649964, 0.0286769997,
1.40370798, 2.35200191, -0.81695199, -1.41733599, 0.741750002, 0.509634018, 0.0578779988, -0.00504799979, 1, -1.31479001,
-1.12457097, 0.0816560015, -0.138601005, 1.908831, 0.29589799, -0.118548997, -1.11154902, 0.904318988, 0.238091007, -1.36241198,
0.766344011, 0.0846130028, 1.90943098, -0.170242995, 0.182289004, -1.76144505, -0.234166995, -0.0574259982, -1.28506804, 0.00356599991,
-1.87796903, 0.331600994, 0.719591022, -0.563885987, -0.392538995, 2.09498596, 0.104494996, 1.42591906, 0.891820014, -0.0885569975,
0.838025987, -0.394392014, -1.54956102, 0.180708006, 1, -0.753113985, -1.21147895, 0.982414007, -0.955168009, 1.17787898,
0.522884011, -1.53650904, 0.256880999, -0.705820978, 1.76760006, -1.01876402, 0.512480021, 1.32894802, -0.475374013, -0.291216999,
-0.290318996, 1.48105395, -2.00562, 0.30625701, -1.23742604, -0.399504006, 0.539386988, 0.611073971, -0.500711977, 0.0556359999,
0.673483014, -1.99158299, 1.37088394, 0.574562013, 1.20841002, -0.749499023, -0.368681997, -0.821714997, 1.16155398, -0.430258989,
1, 1.30893397, -1.12564802, 0.140022993, 0.236615002, -1.90215099, 0.298608989, -0.203482002, -1.09327996, -0.871743977,
-0.406848997, 1.361292, 0.763603985, 0.145623997, 1.879848, -0.288605005, -0.30608201, 1.69962204, 0.400922, 0.0506340005,
-1.28520799, 0.00541700004, -1.85245895, 0.562687993, 0.674004018, 0.508262992, 0.659744978, -2.02477908, -0.180197001, -1.41591799,
0.896340013, -0.151467994, 0.832602024, -0.670337021, -1.45278394, 0.299748003, 1, 0.930656016, 1.44883895, 0.186396003,
0.223949999, 1.74073994, 1.22887003, 0.348643005, -0.536652029, -0.285423011, 0.495631993, 2.17511797, 0.551688015, 0.435642987,
-1.18768597, -0.192351997, -0.142203003, -0.716259003, 0.755999029, 2.02321196, -0.320804, 0.405218005, -1.81160402, -0.482701987,
0.140708998, 0.0632449985, -0.394515008, -1.25368595, 0.903392971, 1.281654, -1.08727002, 0.256695986, -2.16480494, -0.844884992,
0.390372008, 0.0960180014, 1, 1.54183602, -0.211927995, 0.760150015, 1.51308, -0.421842009, -1.067819, -0.207975,
-1.16152704, -0.399556011, -0.489822, -1.33429396, 0.473470986, -0.657828987, 0.376015007, -2.00543904, -2.07948303, 0.146665007,
-1.17304206, 0.747901976, 0.959515989, 0.368728012, 0.900493979, 0.736136019, -0.55626899, -1.47652197, 0.843876004, 0.286655992,
0.775795996, 1.13646805, -0.708450973, 0.560297012, -0.595544994, 1.43877304, 0.225740001, 1.68541598, 1, 1.224949,
0.976007998, -0.739530981, -1.16949701, 1.54346204, -0.0530029982, -0.931824982, -0.615543008, 0.0691400021, -1.74357605, 0.67335403,
-1.05281699, -0.406520009, -0.917698979, 1.17724299, 0.851768017, 0.116880998, -1.23838305, -0.73466903, -1.12388206, 0.443536997,
-0.651799977, 1.99012399, -0.584999025, -0.815348983, 1.59188104, 0.106501997, 0.137075007, -1.50812304, -0.204441994, 0.910489976,
0.0721469969, 1.81340897, -1.09331405, -0.369825989, 1, 0.0942950025, 0.522913992, 1.64853501, 0.200683996, 0.0636570007,
-0.812319994, 1.11289203, 1.74850798, 0.309130013, 0.160299003, -0.0480070002, -1.01613498, -0.839295983, 1.39664602, 1.78574002,
0.415188015, 0.279983014, -0.062909998, -0.0920739993, 0.208640993, -1.60969698, -0.548121989, 1.61737001, 1.784886, 0.516371012,
0.415728986, -0.0460550003, -0.193139002, -0.00887999963, 1.144382, -0.155250996, -1.68277001, -0.266048014, 1.78721404, 1.75803399,
1, 1.59702098, 0.645561993, 0.181025997, 0.373230994, 1.33098602, -0.65209198, 0.150870994, -1.62517297, -1.57640505,
0.368048012, -0.456252009, -1.13670003, -0.0517169982, -1.60260499, -0.55517298, -0.717697978, -1.76265299, -0.00891499966, -1.65259898,
-0.184531003, -0.187325999, 0.0388180017, -0.620765984, 1.48013604, 1.35268497, -0.887188017, -0.327102005, -0.355978996, -0.798838973,
1.00307703, -0.090549998, 1.550053, -0.115198001, 1.82968199, 0.856293976};
static const float ht_q6[2401] = {
1, 0, 1.73205101, -0, 0, 0, 2.23606801, -0, 0, 0,
0, 0, 2.645751, -0, 0, -0, 0, 0, 0, 0,
3, -0, 0, -0, 0, 0, 0, 0, 0, 0,
3.31662512, -0, 0, -0, 0, -0, 0, 0, 0, 0,
0, 0, 3.605551, -0, 0, -0, 0, -0, 0, 1,
0, 1.14227605, 1.30200005, 0, 0, 0.34077099, 1.92002404, 1.09424996, 0, 0,
0, -0.720050991, 1.43062794, 1.90930903, 0.888464987, 0, 0, 0, 0, -1.28518295,
0.0523470007, 1.93748701, 1.75781095, 0.708380997, 0, 0, 0, 0, -0, -0.964537978,
-1.34768105, 0.965050995, 2.14695907, 1.54943705, 0.558488011, 0, 0, 0, 0, -0,
-0, 0.0193780009, -1.848616, -0.54095, 1.63222003, 2.16124296, 1.32799399, 0.436964005, 1, 0.192877993,
-0.525677979, -1.63904202, -0.408129007, -0.130896002, -0.809078991, 1.11233199, 1.71008897, 0.622847974, 0.327722013, -0.0973249972,
1.01956701, 0.827055991, -1.37317896, -1.69883001, -0.825810015, -0.567104995, 0.125550002, 0.188786998, 0.200094998, -1.60427999,
-0.526062012, 1.54678798, 1.63155699, 1.01016295, 0.831259012, -0.0883039981, -0.39328599, -0.0199180003, -1.14332604, 0.169259995,
1.64789402, 0.240851, -1.64232099, -1.52285397, -1.17145896, -1.10540903, -0.00881399959, 0.586354017, 0.130089, -0.175667003,
0.491181999, 1.492787, -0.545081019, -1.59929097, 0.0174139999, 1.66643798, 1.38283896, 1, 1.50822997, 0.118433997,
-0.843335986, -1.64207304, 0.230606005, -1.10235095, -0.128944993, -1.00926197, -0.0856719986, -0.297069997, -1.37783802, -0.269252986,
0.770425975, -0.182586998, 2.07522988, 1.96092296, -0.0175739992, 1.37553406, -0.419028014, 1.07268703, 0.234301999, 0.84543997,
0.425702006, -0.992595971, -1.90789199, 0.44470799, 0.0680460036, 0.485724986, 1.30728698, 0.415982991, -0.730976999, 0.298539996,
-1.648283, -0.225106001, -1.28398502, -0.196833, -0.470373988, -1.49963605, 0.0269670002, -1.26902294, 0.597712994, -1.01765001,
-0.334214985, -0.77997601, -0.653231978, 0.759097993, -0.316554993, 2.3798871, 1, -1.21939003, -0.823809028, -0.913469017,
1.43800604, 1.29686201, -0.359266013, 0.971503973, -0.421178997, -0.498883009, -1.80957198, -0.149541005, 1.17589998, -0.112024002,
0.530007005, 1.33341706, -0.716624022, 0.711845994, 0.726716995, -1.12489605, -0.748300016, -0.842680991, -0.212849006, -1.90262604,
-1.11841702, 1.22220302, 1.13045704, -0.428537995, 0.96428299, 1.23485196, -0.470999986, 0.925050974, -0.282429993, 1.14539802,
1.76427603, 0.0894939974, -0.736477017, -2.09595108, -0.859955013, -0.189514995, -1.67707503, -0.0676489994, 1.19593596, -0.0506770015,
0.4912, 0.506537974, -1.34211099, -0.153473005, 0.846458018, 1, -1.54773104, -0.0325229988, -0.776834011, 1.55220103,
0.0649849996, -1.11685097, 0.032616999, -1.15673196, 0.364504009, -0.0771130025, 1.44521701, 0.0744760036, 0.725380003, 0.0574660003,
2.05852103, -2.12443995, -0.0205329992, -1.34092796, -0.119286001, 1.12103498, -0.0598720014, 0.999285996, -0.115960002, -0.633789003,
1.59331405, 0.132302999, -0.301272005, 0.127742007, -1.427706, -0.116576999, -0.716591001, -0.0951960012, -1.701419, 0.0394699983,
-1.69288898, 0.830717027, -0.107869998, 1.70613599, 0.0320160016, 1.30046999, 0.172904998, -1.11840105, 0.0867839977, -0.969137013,
0.180807993, 0.508994997, 0.114611998, 2.27216697, 1, 1.56816196, 0.715807021, -0.168780997, -0.341695994, 1.44914305,
-0.545176029, -0.155971006, -1.56897497, -1.49836898, -0.373614997, -0.214213997, -1.17325103, 0.0230560005, -1.71553802, 0.499291986,
0.634337008, -1.85769904, -0.0578670017, -1.60129404, -0.413563013, 0.172346994, -0.26571101, 0.619029999, 1.38727701, 1.25248504,
0.869464993, -0.667331994, 0.302114993, -1.13176596, 0.836484015, 0.121812001, 1.38723004, 0.222370997, 1.90149403, -0.744130015,
-0.828262985, 1.866292, 0.449396998, 1.084023, 0.320277005, 0.64822799, 1.10318601, -0.0697690025, 1.47062695, -0.361221999,
0.982818007, -1.10880697, -1.10480404, 1, 1.37546301, -0.444842994, 0.954051971, 1.69412506, -0.789915025, -0.896790981,
-0.547903001, -0.633674026, 0.464394987, -1.15117395, -0.862285972, 0.907209992, -0.59810102, 0.430586994, -1.83014703, -1.27020895,
-0.357811987, -0.789721012, 1.22781599, 0.440034986, 0.851640999, 0.295388997, 1.41011298, -1.46039402, -1.95014799, 1.08197701,
-0.156463996, 1.53124106, 0.214092001, -1.13469398, 0.148498997, -0.572749019, 0.616616011, 1.24397898, 0.214257002, -0.940953016,
1.80586803, 0.281026006, 0.423523009, -0.0624679998, -1.33309805, 0.140107006, -0.924667001, 0.0233660005, -1.66907299, 0.323103011,
-0.198404998, 1.73473299, 1, -0.180439994, 0.308928996, -1.69469905, 0.394777, -0.0719640031, -1.01133204, -0.675889015,
1.83285403, -0.623453021, 0.186294004, 0.141938999, -0.670315027, 1.33309305, 0.864919007, -1.89259303, 0.856136978, -0.333597988,
-0.265753001, 0.122392997, 0.780393004, 1.14951897, -1.23382699, -1.01269102, 1.89521897, -1.08563602, 0.506451011, 0.368934005,
-0.279449999, -0.0963290036, 0.949214995, -0.904721022, -1.29741895, 1.119959, 1.12112498, -1.85131299, 1.30633795, -0.698158979,
-0.448700011, 0.460076988, 0.153375, -0.156537995, -0.444169998, -1.47020495, 0.712082982, 1.39663899, -0.993279994, -1.19055605,
1.76763701, 1, -0.714166999, -0.427873999, -1.51884401, 1.40035295, 0.394493997, -0.913348019, 0.838985026, 1.15986395,
-1.84292603, -0.915256023, 0.464204013, 0.880670011, 0.987239003, -0.758073986, -0.474918991, 1.92180204, 1.36579299, -0.694684029,
-0.621535003, 0.487342, -1.321841, -0.575383008, 0.351963013, -0.364257008, -1.60996997, -1.57456601, 0.688809991, 1.23991001,
-0.148199007, -1.12275505, -0.315180987, 1.02697396, 0.177505001, 0.298442006, 1.16609204, 0.968997002, 1.43398702, -0.509320021,
-1.65521002, 0.0288529992, 0.692569971, 0.0646929964, 1.47291195, 0.0238979999, -0.426544994, 0.0965360031, -1.03862906, -1.75524294,
1, 0.452975988, 1.52282202, 0.689800978, 0.403389007, 0.890532017, 1.47467101, 1.35611796, 0.174695998, 0.222873002,
0.938342988, 1.21395099, 1.00603199, 1.84862602, 0.406369001, -0.0388009995, 0.083382003, 0.587849975, 1.54095101, 1.31479001,
0.271275997, 2.00218606, 0.667340994, -0.102342002, -0.0782129988, 0.0133750001, 0.243139997, 1.100824, 2.05242991, 1.144714,
-0.534280002, 1.743191, 0.888846993, -0.191649005, -0.228067994, -0.0555399992, -0.00957399979, 0.0423990004, 0.504383028, 1.68350101,
2.31432199, 0.725805998, -1.20790696, 1.10527098, 1.00226498, -0.293089986, -0.47311601, -0.176062003, -0.0266629998, 1,
-0.410809994, -1.21955705, -1.15927398, 0.61482501, 0.646795988, 0.544839978, 1.82520795, 0.758556008, -0.638808012, -1.14535904,
-0.568295002, 0.485410988, -1.60368395, -1.413118, -0.390877008, 0.551827013, 1.34937704, 1.31538105, 0.186321005, -1.22644103,
0.525784016, 1.62288594, 0.825663984, 0.116782002, -0.416418999, -1.28866804, -1.83370304, -0.925598025, 0.296748012, 1.23164904,
0.837399006, -1.14198101, -1.122015, -0.272718996, 0.0552930012, 0.276443005, 1.05716801, 1.98135304, 1.72294605, 0.0970389992,
-0.607773006, -0.500073016, -1.71508801, 0.119724996, 1.054245, 0.419310987, -0.140373006, -0.141319007, 1, 0.812258005,
0.765600979, 1.32442105, 1.388816, 0.802824974, -0.462704003, 1.30903995, 0.70638603, 1.504861, 1.62418497, -0.017546,
-1.18297696, -0.0286090001, 0.826101005, -0.120059997, 1.16078305, 1.99553502, 0.442216009, -0.802497983, -0.572009027, -1.30850804,
0.224922001, -0.159206003, -0.845897019, 0.514868975, 1.70172298, 0.946345985, -1.11468101, -0.703051984, 0.683209002, -1.14635599,
-0.566954017, -0.0755010024, -1.24009705, -1.24931705, -0.200026006, 0.820559978, 1.07547903, -0.883566976, -1.47210801, 0.170517996,
1.17477405, 0.278037012, -0.748749971, 0.0704919994, -0.783734024, -1.99106896, -1.24561501, 1, -1.37326097, 0.866554022,
-0.602692008, 1.06849599, -1.53629005, -0.278483987, -0.67424202, -0.982838988, 0.440093994, 1.41435099, -0.323103011, -1.15721202,
-0.141801998, -1.30096805, 1.28443205, -1.24256599, 0.660543978, 0.695986986, 1.17396605, -0.868618011, 0.515226007, -0.640191972,
1.92782497, -0.103951998, 0.539914012, -2.06182098, 0.457136005, -0.584209979, 1.51310205, 0.295722008, 0.664065003, 0.537375987,
1.33417106, -0.172490999, -0.995320022, 0.625823021, 0.973937988, -1.75649595, -0.0847849995, -1.29549003, 0.361799002, 1.16483104,
0.158785, 1.19163597, -0.247446999, -0.146946996, -1.795434, 0.806029022, 1, -0.848728001, -0.0108169997, 1.50981605,
-1.65430999, 0.0118519999, -1.11790299, -0.0210839994, 1.00646198, -2.09028697, 0.0273349993, 0.793757975, 0.0247840006, -1.41202796,
-0.0166299995, 0.0720340014, -1.97005498, 0.0391630009, 1.43228304, -0.0217719991, 1.12456095, 0.0387310013, -0.871383011, -0.00135000004,
-1.01979995, -1.27699399, 0.0408059992, 1.732566, -0.0453249998, -0.786361992, -0.0388309993, 1.39887202, 0.0275749993, -0.0597070009,
0.0211229995, -1.94481099, -0.166702002, 0.0287549999, 1.58762705, -0.0611350015, -1.39388704, 0.0315949991, -1.12581205, -0.0562050007,
0.848022997, 0.00210699998, 0.821835995, 0.0437930003, -2.41579604, 1, -1.10994196, -1.22854602, 0.508629024, -0.72882998,
1.76041901, 0.569441974, -0.806708992, -0.628242016, 0.203676, 1.36774695, -1.57351899, 0.454575986, 0.721062005, 1.17898095,
-0.703743994, 0.541772008, -0.433402985, -1.59169495, 0.562470973, -1.21279502, -0.257750988, -1.37202203, 1.49749899, -0.0807569996,
0.221138, -1.27451205, 0.595802009, 1.15522504, 0.74911201, 1.25597703, -0.343279004, 0.995790005, -2.05862093, 0.18998,
0.339255005, -0.158690006, -0.565542996, 1.98049295, -0.571587026, -0.182478994, -1.63380396, -0.560868979, 0.748687983, -0.157294005,
1.97495306, -0.295213997, -0.867617011, 0.251190007, 1, -1.02633405, 0.391802013, -1.33907795, 1.77426696, -0.519133985,
-0.946406007, -0.677323997, 0.477517992, -1.78724897, 1.06187606, 0.714421988, -0.821169019, 0.932120025, 0.285788, 0.736831009,
1.002473, -1.21286404, -0.986185014, 0.839841008, 0.583707988, 1.09575701, -0.26541701, 0.500028014, -1.72749603, 0.260740995,
0.752098024, 0.799452007, -1.490605, -0.322167993, 1.08626699, -0.420338005, -0.401174009, -0.329591006, -1.29604197, 2.02375603,
-1.45796597, 0.21266, -0.353300989, 1.538306, 0.247370005, -0.983138978, -0.0948759988, -1.28271997, 0.0665759966, -0.634199023,
0.608820975, 1.650576, -1.46767604, 1, -1.58070695, -0.703270972, -0.0823130012, 0.167976007, 1.43515396, -0.565065026,
0.0747340024, -1.60848796, 1.57693398, -0.180450007, 0.259766996, 1.16862905, 0.0135270003, 1.72794104, 0.248146996, -0.319689006,
-1.92086601, 0.0224089995, -1.622316, -0.372976005, -0.0844800025, -0.214580998, -0.302267998, 1.51393497, -1.43315196, 0.430514008,
0.632542014, 0.151240006, 1.08041894, -0.870598972, 0.0562609993, -1.44823503, 0.0995370001, -2.03875804, -0.381455004, 0.433228999,
2.09809995, -0.209672004, 1.18608701, -0.151631996, 0.727849007, 1.07807803, 0.0379020013, 1.451985, 0.186643004, 0.992932975,
0.558440983, -1.34246397, 1, -0.820922971, -0.849606991, 1.26659095, -1.34234202, 0.900418997, -0.31099999, -1.38924599,
0.600530982, -1.36769295, 1.74208605, -0.155926004, 1.16603506, 0.240575999, -0.779367983, -0.212856993, -0.953812003, 2.01264691,
-0.795472026, -0.72548002, -0.822018981, 1.11933303, 0.355874985, 0.313232988, -0.852651, -0.307687998, 1.55173194, -1.32171094,
-0.803604007, 0.877288997, -0.366968989, -1.35355794, 0.359513015, -0.205700994, 1.38715601, -1.12808204, 0.322308004, 0.544175982,
-1.266307, -0.370030999, 1.60776401, -0.147813007, 1.18204606, 0.228057995, -0.719274998, -0.0575879999, -1.13200295, 1.99512398,
-1.01040006, 1, 1.09918702, 0.93778801, -0.955165982, -1.35542202, 1.33076298, -0.134782001, -1.15639997, -0.190982997,
0.676445007, -1.94163597, 0.478877008, -1.09890699, -0.416132003, -0.273582995, 1.04285097, 0.306291014, 1.09874797, -1.23492002,
-0.772511005, -1.045012, 0.67129302, -0.174004003, 1.69390094, -1.06530499, -0.886210024, 0.550014973, 0.91891098, 0.388161004,
-1.32407701, -0.0238930006, 1.15058994, 0.0546929985, 1.41665196, -1.91299796, 0.41228801, 0.780997992, -1.73002601, 0.54935199,
0.128450006, 1.64660203, -0.680253983, 1.020841, 0.591122985, 0.232011005, 0.198027, -1.91068995, 0.804853976, 0.348720998,
1, -0.0977770016, -1.32114506, 1.115803, -0.140847996, 0.166768, 0.833409011, -1.90310299, 0.797483027, -0.146632001,
0.284242004, -0.174604997, 0.091783002, 1.99253702, -1.60938597, 0.546320975, -0.132902995, 0.335536003, -0.37479499, 0.109544002,
-0.977521002, -1.25008094, 2.12210107, -1.25013995, 0.364513993, -0.111377999, 0.336219013, -0.515048981, 0.351365, 0.00333600002,
1.39171398, -0.0380670018, -1.98943496, 1.91896796, -0.922147989, 0.238416001, -0.0886889994, 0.306309998, -0.578598022, 0.593683004,
-0.201648995, -0.114164002, -1.13668394, 1.30280399, 1.14174104, -2.21194506, 1.58692205, -0.655686975, 0.153317004, 1,
0.730726004, -1.01313603, 1.19983101, 1.13187695, -0.955754995, 0.0295659993, -1.56932294, 0.584583998, 1.11328804, -1.75168204,
0.485814005, 0.997623026, 0.797692001, -0.904697001, -0.0783810019, 0.782907009, -1.953601, 1.36746299, 0.354070991, -1.18768406,
0.581375003, 0.706257999, 0.137542993, -0.555760026, 0.322896987, -1.51884604, 1.91940999, -0.0768169984, -0.902095973, 0.381999999,
-1.48121595, -0.039673999, -0.135135993, 1.078179, -0.750196993, -0.096607998, -0.680994987, 1.744403, -0.776371002, -1.23638999,
0.71420002, 0.74417901, 1.17269599, -0.638562977, 0.0546599999, -1.23829401, 1.58217299, -0.682686985, 1, 1.48851705,
-0.748211026, -0.473809987, -0.910504997, -1.43781197, -0.492137015, 0.457670003, -1.28530705, -0.924062014, 1.04062605, -0.0932449996,
1.18118, 0.0296800006, 1.46899104, 1.22495198, 1.38469195, 1.197528, -0.241481006, 1.49131203, -0.517283976, -0.474698991,
-0.340884, -1.58746397, 0.486889988, 0.0415779985, -1.98386896, -0.520595014, -0.759612024, -1.21600103, -0.739877999, 0.387064993,
-1.07230103, 0.690110028, -0.697574019, -1.38777399, -1.25318503, -0.0647580028, 1.17517495, -0.590388, 0.928771019, -0.422421008,
1.15508199, 0.134460002, 1.31109095, 0.782629013, 0.413219005, 2.16149211, 0.357941985, 1, 0.469136, -1.22996104,
-1.12565804, -0.681756973, -0.744929016, 0.573333979, 1.78740203, 0.675845981, 0.676298022, 1.28088403, 0.667621017, 0.44964999,
-1.60190701, -1.26977801, -0.274971008, -0.54518199, -1.44075596, -1.49369001, -0.241716996, -1.21050704, 0.579981983, 1.480739,
0.585785985, -0.00474700006, 0.370258003, 1.28401196, 1.98419094, 1.08925295, -0.313015014, 1.25965703, 0.751056015, -1.079808,
-0.806737006, 0.0111809997, 0.158108994, -0.205882996, -0.947997987, -1.99856901, -1.909688, -0.180859998, 0.689855993, -0.57041502,
-1.65525997, 0.179291993, 0.776444972, -0.0174039993, -0.404819012, -0.211333007, 1, -0.596194983, 1.50048995, 0.626960993,
-0.482562006, -1.15490401, 1.39918602, 1.21450198, 0.0242909994, -0.197703004, -1.10605097, -1.53501296, 0.862322986, 1.61422706,
0.0556770004, -0.169916004, -0.0138699999, -0.513815999, -1.77755797, -1.59369695, 0.0744519979, 1.67594004, 0.0894789994, -0.441597998,
-0.137417004, 0.0443440005, -0.0398509987, -0.943302989, -2.29541993, -1.28283405, -0.736433029, 1.34903502, 0.115548, -0.81072098,
-0.394827992, -0.0571769997, 0.0371909998, 0.138508007, -0.0811309963, -1.40528405, -2.47301292, -0.660257995, -1.346084, 0.694329977,
0.124488004, -1.20776904, -0.803816974, -0.178591996, -0.00565400021, 1, -1.430843, 0.423801988, 0.87924999, -1.62415898,
-0.782850981, -0.917226017, 0.481059998, -0.822511971, -0.156623006, -1.05142903, 0.937776029, -0.874158025, -0.576260984, -0.532468021,
-1.90020704, 1.58064795, -0.114968002, 0.817093015, 1.23728204, 0.498513997, -0.760307014, 0.413794994, -1.39484096, -1.16035998,
1.84691405, 1.28272605, 0.0598910004, 1.43043399, -0.314494997, 1.119385, 0.193257004, 0.724404991, 0.726613998, -0.941654027,
0.751712024, 0.32949701, 1.62937403, -0.435113013, 0.140092, -0.0556459986, -1.38691902, 0.0465990007, 0.85225898, -0.0281809997,
1.69964504, 0.319418013, 0.663170993, 1.98520899, 1, 1.19477201, 1.14227498, 0.517423987, 0.798098028, 1.76189494,
0.340766996, 0.763029993, -0.748616993, -0.300249994, 1.39256501, 1.31280005, -0.720054984, 0.568539023, -1.30622697, -0.836197019,
-0.706934988, -0.59403801, 1.41311395, 0.0480279997, -1.28518295, 0.0207989998, -1.32550204, -1.65439701, -0.0452780016, -0.254251003,
-1.54627299, -0.725546002, 0.703858018, -1.23669505, -0.964532018, -0.535579979, -0.660219014, -2.0206461, -0.0990360007, 0.497260988,
0.277961999, -0.604568005, -2.15682507, -0.551590979, -0.394553006, -1.69636595, 0.0193860009, -0.734651983, 0.370090991, -1.53618395,
-0.138139993, 1.18240404, 0.337159008, 1, 1.72276103, -0.141554996, 0.109798998, 0.244202003, -0.314830005, -1.095631,
-0.0200650003, -1.90799296, -2.03309393, -0.0528040007, -1.55767703, 0.320733011, -0.099278003, 0.412564009, -0.39299801, -0.551303029,
0.498475999, -0.201597005, 0.569365025, 1.05044305, 0.0362880006, 1.57511306, 0.096355997, 2.11843204, 2.17325902, 0.149434999,
1.58441496, 0.0858099982, 1.44919896, -0.492487013, 0.0923639983, -0.670450985, 0.306268007, -0.574217021, 0.715957999, 0.88459003,
-0.640395999, 0.411817998, -0.759186029, 0.181452006, -0.806048989, -0.971844018, -0.0513730012, -1.41771495, -0.146751001, -1.58244801,
-0.210971996, -2.2026279, 1, 1.47475505, 0.388186991, 0.821223974, 1.56352794, 0.739069998, -0.94955802, 0.411554992,
-0.968563974, -0.0900409967, 0.927119017, -1.03304505, -0.814987004, -0.57525599, -0.574325025, -1.93395603, -1.79183495, -0.0605400018,
-0.877956986, -1.19862497, 0.593029022, -0.667460024, 0.543870986, -1.30031502, -0.891260028, -1.686939, -1.33191097, 0.0409080014,
-1.30577505, 0.478177011, 1.08179998, 0.266274989, 0.808893025, 0.878636003, -0.662494004, 1.15692198, 0.192789003, -1.36317599,
0.646427989, 0.07711, 0.236141995, 1.40952599, -0.110724002, 0.784901023, -0.146283001, 1.65621805, 0.321534008, 0.934881985,
2.06592894, 1, -0.583877981, 1.12781096, -1.17776299, 0.887778997, -0.850126028, 0.304060012, -1.71482205, 0.675328016,
-0.897937, 1.52943003, -0.611670971, -0.758072972, -1.23382497, 1.16342795, -0.172753006, 0.709387004, -1.75405502, 1.51300204,
0.0167089999, -1.28543794, 0.0337040015, 1.150931, -0.337460995, -0.196463004, -0.436453998, 1.53198898, -2.09650612, 0.689761996,
0.628282011, -0.905378997, 1.26733196, 0.524698019, -0.403344989, -0.424281001, 0.390920013, 0.171737999, -1.02467406, 2.09545207,
-1.51882696, -0.523630977, 0.810293019, 0.112460002, 1.63447297, -0.398322999, -0.292205989, -0.580331028, 0.917773008, -0.429809988,
1, -1.48342001, -0.426997989, 0.785582006, -1.50445795, 0.817736983, -0.914186001, -0.433052987, -1.02207601, 0.208468005,
0.981281996, 0.965946019, 0.879271984, -0.511541009, 0.666648984, -1.89244699, 1.81939697, -0.154179007, 0.74860698, -1.28924096,
0.489753008, 0.682749987, 0.508576989, 1.39962006, -0.721023977, 1.51313901, -1.48760796, -0.0783049986, -1.33057702, -0.311760992,
-1.12204599, 0.165101007, -0.903948009, 0.71084702, 0.589537024, 1.29129505, -0.436774999, -1.34497905, -0.486211002, 0.187070996,
-0.0354290009, 1.43844104, 0.0607969984, -0.761762977, -0.024069, -1.69820595, 0.192684993, -1.147789, 1.95843899, 1,
0.328864008, 0.940436006, -1.41683805, -0.601535022, 0.399273008, -0.129223004, -1.72017801, 1.22597802, 0.782916009, -0.864129007,
0.145824, -1.09605598, -0.62824899, 1.76116598, -0.959852993, -0.872584999, 1.27527797, -0.554099977, -0.228942007, -1.05086696,
0.98634702, 1.12930202, -1.56348705, 0.67513001, 0.883067012, -1.57134902, 1.073228, 0.165627003, -0.396984011, -0.0362560004,
1.71031702, -0.337561011, -1.31577504, 1.21577203, -0.405454993, -0.83198297, 1.72875702, -1.57786095, 0.161186993, 0.729582012,
-0.207837999, 1.01325297, 0.895425022, -1.48694801, -0.197614998, 1.22081101, -0.793748975, 0.170696005, 1, 0.167513996,
1.51862395, -0.815916002, -0.176449999, 0.328417003, 1.46039701, -1.59963298, 0.411606997, 0.132778004, -0.409316987, 0.445592999,
0.978579998, -2.170367, 0.954819977, -0.190998003, -0.0859339982, 0.349249989, -0.669488013, 0.478886992, 0.233039007, -2.33253407,
1.56172395, -0.502390027, 0.0818110034, 0.0507550016, -0.249892995, 0.651606023, -0.886629999, 0.411179006, -0.574773014, -2.00274491,
2.06825399, -0.937323987, 0.237901002, -0.031702999, -0.0280770008, 0.160450995, -0.516580999, 0.991683006, -0.991510987, 0.252108991,
-1.23778999, -1.22795403, 2.31291103, -1.42651796, 0.491793007, -0.100221001, 0.0104350001, 1, -1.71537101, 0.233770996,
0.0534269996, -0.118317001, -0.51769501, -1.056934, 0.0161240008, -1.89753103, 2.02588701, -0.0422499999, 1.45843399, -0.51937598,
-0.0454250015, -0.677592993, -0.189787999, 0.265644014, 0.820290983, 0.0894000009, 0.910642028, 0.924419999, -0.0283630006, 1.43376303,
-0.0768460035, 2.12187505, -2.19541502, 0.118913002, -1.40438199, 0.0662349984, -1.19572699, 0.769141018, 0.0372419991, 1.06225395,
0.131564006, 0.949832976, 0.344574004, -0.425675988, -1.06836498, -0.171253994, -1.19513798, -0.0681419969, -1.23250496, -0.71894902,
0.0383879989, -1.09284902, 0.111961998, -1.36791694, 0.167682007, -2.25199199, 1, 0.788112998, -0.0995440036, 1.53914499,
1.56600296, -0.101281002, -1.10695505, -0.197797, 1.12822998, 2.05758691, -0.238120005, -0.725036979, 0.226827994, -1.41596103,
-0.171553999, 0.313252985, 2.09051991, -0.354759991, -1.32484102, 0.184631005, 1.08798397, 0.360576004, -0.954484999, -0.0540100001,
-0.697779, 1.615363, -0.398479015, -1.65534401, 0.390965015, 0.69698298, -0.351906002, 1.36117303, 0.281672001, -0.252014995,
0.133004993, -1.64797997, 0.713590026, -0.334731996, -1.62419403, 0.547160983, 1.24238002, -0.264717013, -1.049353, -0.516979992,
0.895075023, 0.0833010003, 0.542127013, 0.341491014, -2.28926706, 1, -0.900542974, -1.43397999, -0.364311993, 0.423548013,
1.66713905, 1.18097794, 0.674436986, -0.437810987, 0.149643004, -0.927757025, -2.04459691, -0.467839986, -0.827136993, 0.958998978,
0.337325007, -0.219408005, -0.371674001, 1.39313102, 1.83562803, -0.419753999, 0.74259901, -1.44004405, -0.837822974, 0.00726799993,
0.0444389991, 0.602464974, 0.641345978, -1.62512803, -1.06033301, 1.16072798, -0.428954989, 1.67985296, 1.445714, -0.0199570004,
-0.121247999, 0.0558849983, -0.132652, -1.15683603, -0.878104985, 1.48785305, -0.052437, -1.49486697, -0.0212130006, -1.537956,
-1.97941303, 0.0383209996, 0.361932993, 0.0505920015, 1, 1.31040204, -1.070189, 0.370864004, 0.627399027, -1.81046295,
0.162456006, -0.512389004, -1.01963699, -0.688125014, -1.025635, 1.11403096, 0.891879976, 0.315288007, 1.66684198, -0.748512983,
-0.756924987, 1.27552402, 0.908676028, 0.363225996, -1.25696397, 0.102798, -1.47676301, 1.38746095, 0.382196009, 0.133285999,
1.55113494, -1.38984394, -0.247139007, -1.55985403, 0.651080012, -0.441462994, 0.401645005, -1.51181304, -0.783218026, 0.686441004,
0.570245028, -0.296930999, -1.95247602, 0.796200991, -0.561896026, 1.58663905, 0.457129002, 0.449043006, 0.91318202, 0.866074026,
0.985867977, -1.52923703, 0.0480250008, 1, 0.552646995, -1.57876801, 0.449523985, 0.320719987, -1.12639403, 1.66867602,
-0.916212022, -0.0667089969, 0.0669159964, -0.773450017, 1.630566, -1.39171696, 1.32630706, 0.160877004, -0.129232004, -0.0253149997,
-0.182981998, 1.33761001, -1.94229996, 0.838135004, -1.57987201, -0.278223008, 0.353386015, -0.0582210012, -0.0263739992, 0.0765300021,
0.359398007, -1.914325, 1.97977901, -0.124577001, 1.610358, 0.398178995, -0.694090009, 0.176008001, -0.00737599982, -0.00957399979,
0.0866769999, -0.166117996, -0.584617972, 2.38633108, -1.71458197, -0.613112986, -1.39464605, -0.496356994, 1.12904704, -0.382046014,
0.0242410004, 0.00676599983, 1, 1.062765, -0.605404973, -1.22638202, -1.68262696, -0.830630004, -0.70825702, 0.958509028,
0.241767004, 1.44707704, 1.55604506, -0.386855006, 1.10470498, 0.44641301, -0.223579004, 0.930262983, -0.481335998, -1.51739299,
0.210998997, 1.09096205, -0.0535290018, -1.25892103, -0.0303169992, -0.975466013, -1.64040005, -0.698211014, 0.557995021, 0.119439997,
-1.63464999, -0.391088009, -1.07062399, 0.451297998, 0.234872997, 0.076782003, 1.90165305, 1.52793705, 1.490363, 0.879921019,
-0.133451, 1.30779195, 1.00239098, -0.809445977, 0.799440026, 0.934063971, -0.144026995, 0.840722978, -0.454804003, -1.92558396,
-0.680127025, 1, -0.0272870008, 0.345194995, 1.69708395, -0.059785001, -0.0121600004, -0.984808981, 0.756296992, 1.85861301,
-0.0948989987, -0.0315239988, 0.0204559993, -0.738581002, -1.272205, 0.98003602, 1.96598601, -0.131475002, -0.0567389987, 0.0373799987,
0.0202699993, 0.698858023, -1.26063704, -1.16207194, 1.17545497, 2.04156089, -0.168842003, -0.0869050026, 0.0505569987, 0.0460480005,
-0.0120679997, 1.01785505, 0.750518024, -1.43154705, -1.04737997, 1.34946895, 2.09580898, -0.206554994, -0.121326998, 0.0596860014,
0.0756829977, -0.0169929992, -0.0250339992, -0.295632988, 1.55696201, 0.528286994, -1.56790304, -0.926809013, 1.50600803, 2.13458109,
1, 0.90783602, -1.423913, -0.385105014, -0.451346993, -1.668841, 1.14881206, 0.707924008, -0.436266005, -0.138592005,
0.98170799, 2.02043509, -0.412407011, -0.857070029, 0.948906004, 0.360294014, 0.232984006, 0.341807991, -1.45832598, -1.76889801,
-0.483209997, 0.750367999, -1.40959895, -0.888590991, -0.00791900046, -0.0586830005, -0.635249972, -0.584062994, 1.67279398, 0.951189995,
1.20409298, -0.403495014, 1.61690104, 1.51837504, 0.0215920005, -0.126230001, -0.0552829988, 0.173943996, 1.20859802, 0.788780987,
-1.48724902, 0.179847002, -1.48891902, -0.0762910023, -1.43755496, -2.05057406, -0.0410810001, 0.374157995, 0.0612259991, 1,
-1.31332397, 1.09134495, 0.290078998, -0.491827995, -1.85036802, 0.213580996, 0.408697993, -1.05905104, 0.778394997, -0.819904983,
-1.21014297, -0.845984995, 0.267289013, -1.76549804, -0.594385982, 0.616303027, 1.47137201, -0.757772028, 0.250331014, -1.27264094,
-0.0552910008, -1.63170695, -1.12354696, 0.520434022, -0.305624008, 1.28792799, 1.66070604, -0.259739995, 1.51964104, -0.747313976,
-0.335649014, -0.559296012, -1.26812398, 1.08758605, 0.581534028, -0.512228012, -0.69432199, 1.67305195, 1.04683995, 0.391808987,
1.68628895, 0.33613199, -0.372456998, 0.843680978, -0.799372017, 1.41280198, 1.32113898, -0.139831007, 1, 0.810621977,
0.194331005, -1.51826406, -1.58887696, 0.203370005, -1.07581198, -0.380903989, 1.06379104, 2.04211497, -0.471652001, -0.71054101,
-0.435927987, 1.33081698, 0.315782011, -0.204004005, -1.99991095, 0.687358975, 1.25475705, -0.362639993, 0.98546201, 0.679210007,
-0.840089023, -0.0686660036, -0.824038982, 1.43414199, -0.744199991, -1.50139904, 0.752609015, 0.621532977, 0.657194972, -1.16410601,
-0.503889978, 0.149987996, -0.306638986, 1.73925304, -0.461227, 0.580157995, 1.389112, -1.02360702, -1.04314196, 0.501864016,
-0.840022981, -0.939971983, 0.698406994, 0.102256998, 0.572367013, 0.703585982, -2.28543496, 1, -0.815289974, 0.873329997,
1.25403202, -1.31991303, -0.919210017, -0.265303999, 1.41387606, 0.58604598, -1.33016598, -1.76080799, -0.206807002, -1.15315497,
0.318098009, 0.781804979, -0.21277, -0.915252984, -2.01207805, -0.891193986, 0.686936975, -0.886802971, -1.05660701, 0.395693004,
-0.321846992, -0.827494979, -0.286480993, -1.53057599, -1.420681, 0.692894995, 0.908423007, 0.266645014, -1.39728403, -0.307648003,
-0.227248996, -1.38381803, -1.08020604, 0.313336998, -0.520817995, -1.32570004, 0.213000998, 1.60622299, 0.242190003, 1.156129,
-0.37252301, -0.713168025, 0.0340709984, -1.19858599, -1.96379399, -0.954376996, 1, 0.892549992, 1.46085596, -0.263164014,
-0.303236991, 1.68331003, 1.26796198, -0.496315002, -0.46952799, -0.211576, -0.676672995, 2.13470888, 0.621285021, -0.629408002,
-1.04774904, 0.245838001, 0.168464005, -0.535345018, -1.04507899, 2.04056191, -0.236066997, -0.60165, -1.61818397, 0.622036994,
0.0760240033, 0.0142430002, 0.471249998, -0.947722018, -1.27261305, 1.37993002, -1.01927102, -0.406865001, -1.97049296, 1.10119295,
0.212662995, -0.103164002, -0.057585001, 0.0433119982, 0.926979005, -1.34426606, -1.251508, 0.321722001, -1.47694802, -0.0948579982,
-1.93781495, 1.56195199, 0.418321997, -0.313722998, 0.0086749997, 1, -0.35364601, -1.65731895, 0.358089, -0.163487002,
0.756657004, 1.95287704, -0.766164005, 0.00204099994, -0.0369580016, 0.413884014, -1.18357003, -1.99723303, 1.19844103, -0.00516799977,
-0.0355990008, -0.00039500001, 0.106091, -0.765825987, 1.57957196, 1.82709706, -1.599419, 0.0095619997, 0.102188997, -0.0158099998,
0.00329999998, 0.00125299999, -0.221866995, 1.19885004, -1.896752, -1.476071, 1.92058396, -0.0149689997, -0.213707998, 0.0501740016,
-0.00351299997, 0.00145700003, -0.0113850003, -0.0028880001, 0.390414, -1.67933798, 2.09648108, 0.985027015, -2.12282205, 0.0209689997,
0.376056999, -0.115626998, 0.0121189998, -5.40000001e-05, 1, -0.778078973, 1.50337005, -0.36670199, 0.368351012, -1.51012897,
1.40885901, -0.711710989, -0.30398801, 0.0632660016, 0.845893979, -2.0138011, 0.880535007, -0.949087977, -0.698089004, 0.248245999,
-0.132489994, 0.164739996, 1.363289, -2.10255504, 0.0989309996, -0.990917027, -1.12507904, 0.646411002, -0.0256009996, 0.0414809994,
-0.381402999, 0.303223997, 1.767645, -1.71076596, -0.712168992, -0.806270003, -1.458781, 1.18980002, -0.0736979991, -0.0567380004,
0.0173879992, 0.129815996, -0.778385997, 0.453283012, 1.91603506, -0.90892297, -1.33106804, -0.428368002, -1.58124304, 1.778602,
-0.150407001, -0.177561998, 0.0318979993, 1, 0.0235690009, -1.67572796, -0.437469989, -0.0133109996, -0.0509889983, 2.02147698,
0.946403027, 0.123176999, 0.00544199999, 0.0340729989, 0.0811360031, -2.15030003, -1.50595796, -0.315297008, -0.0334080011, -0.00193999999,
-0.0157949999, -0.0640050024, -0.110913999, 2.09404612, 2.05865312, 0.59227097, 0.096965, 0.00887100026, 0.000639999984, 0.00622500014,
0.0335000008, 0.102164, 0.137532994, -1.87515903, -2.55273104, -0.945366979, -0.205654994, -0.0284659993, -0.00232199999, -0.000201000003,
-0.00223400001, -0.0145410001, -0.0599749982, -0.146629006, -0.158574, 1.51846898, 2.94325805, 1.35682499, 0.368185997, 0.0664890036,
0.00810100045, 0.000600999978, 1, -0.00731300004, -0.555836976, 1.64042401, -0.0154870003, 0.00524799991, -0.772611022, -1.17714,
1.73699296, -0.0237649996, 0.0131489998, 0.00331799989, 1.05498302, -0.744334996, -1.47480404, 1.77684498, -0.0318300016, 0.0228790008,
0.0037430001, -0.00732399989, 0.105619997, 1.64288902, -0.419851005, -1.71063805, 1.78482401, -0.0395210013, 0.0338779986, 0.00144100003,
-0.0150690004, 0.00148500002, -1.12544298, -0.333137989, 1.69007802, -0.107747003, -1.89967406, 1.77277195, -0.0467489995, 0.0457290001,
-0.00340900011, -0.0222319998, 0.0065779998, 0.00632600021, 0.614042997, -1.41895199, -0.737762988, 1.66223204, 0.191147, -2.05121803,
1.74737501};
static const float *const ht_q[7] = {ht_q0, ht_q1, ht_q2, ht_q3, ht_q4, ht_q5, ht_q6};
static const float ht_weight[2048] = {
0.142857105, 0.142857105, 0.142857105, 0.142857105, 0.142857105, 0.142857105, 0.142857105, 0.142857105, 0.794843912, 0.46111849,
0.382345796, 0.241935506, 0.214447305, 0.153599307, 0.143741906, 0.133935794, 0.558422089, 0.304392308, 0.289727688, 0.276044488,
0.265807897, 0.257003009, 0.223531902, 0.217975199, 0.801016212, 0.282529205, 0.259689301, 0.244774699, 0.224557504, 0.213946894,
0.202531904, 0.191865996, 0.379519999, 0.356833607, 0.305775195, 0.289434403, 0.274635494, 0.264562696, 0.256841809, 0.249803796,
0.583122671, 0.495492101, 0.417335808, 0.3680861, 0.169032499, 0.142369002, 0.129048198, 0.115182199, 0.492055386, 0.445342004,
0.429935604, 0.257504195, 0.244269401, 0.230083302, 0.212310597, 0.206273302, 0.516990185, 0.481461704, 0.305420995, 0.277496815,
0.244950905, 0.231426403, 0.2170268, 0.207586497, 0.417071998, 0.298061401, 0.271845102, 0.258482397, 0.250699311, 0.242545903,
0.2367955, 0.232457995, 0.780004501, 0.605574429, 0.196258202, 0.174972907, 0.166858897, 0.157392398, 0.150302202, 0.131284103,
0.528322577, 0.351572394, 0.319595993, 0.283473909, 0.2575019, 0.241168693, 0.228181005, 0.218053594, 0.627318203, 0.40785411,
0.369956404, 0.324214101, 0.283486605, 0.191640198, 0.169075504, 0.1386085, 0.358098507, 0.352342814, 0.348865807, 0.341711015,
0.337753206, 0.248108506, 0.236955106, 0.228050396, 0.65351969, 0.609846115, 0.575906575, 0.252091408, 0.135606602, 0.106816404,
0.0910271034, 0.0767718032, 0.41454941, 0.393749088, 0.367201507, 0.349962294, 0.270471007, 0.255194694, 0.242325693, 0.228449404,
0.546972811, 0.487070292, 0.377754986, 0.344554514, 0.325858206, 0.298440009, 0.125740603, 0.0937742963, 0.338412404, 0.304311901,
0.288679212, 0.279587299, 0.270195901, 0.259829789, 0.253169388, 0.247861207, 0.74674648, 0.503152072, 0.437872797, 0.294090897,
0.2067637, 0.138472199, 0.130563706, 0.119466603, 0.447682798, 0.346869886, 0.31689921, 0.295529604, 0.278614104, 0.265997291,
0.25477469, 0.244982406, 0.599934518, 0.441652685, 0.279918492, 0.264544606, 0.249264404, 0.236500606, 0.222515002, 0.202405304,
0.439391404, 0.398244202, 0.306699604, 0.283801794, 0.266882807, 0.254604399, 0.2426707, 0.2354967, 0.718924284, 0.569249809,
0.446315408, 0.381144106, 0.140159398, 0.112656802, 0.0951294005, 0.0809980035, 0.482856393, 0.413845986, 0.386303008, 0.356920511,
0.268227607, 0.238718003, 0.225063697, 0.209980801, 0.53497982, 0.481081903, 0.385287911, 0.3153328, 0.284002095, 0.229901806,
0.172712296, 0.148174897, 0.353107601, 0.335119992, 0.322699189, 0.304086506, 0.281887203, 0.267894894, 0.25707671, 0.248706505,
0.675397575, 0.64346081, 0.404362798, 0.239304096, 0.193644494, 0.158367395, 0.138005003, 0.123817302, 0.565823317, 0.419194996,
0.378406912, 0.348307788, 0.256271005, 0.227175593, 0.212285802, 0.195919007, 0.742365718, 0.466035903, 0.424650401, 0.332080096,
0.283272505, 0.244979799, 0.1262905, 0.0925922021, 0.396272004, 0.3806279, 0.368692309, 0.327574104, 0.314959407, 0.298557192,
0.278396487, 0.260482699, 0.596719623, 0.487024903, 0.4695732, 0.205149204, 0.199115604, 0.182496399, 0.177816793, 0.175854906,
0.399787992, 0.391510487, 0.378067404, 0.352090508, 0.318567395, 0.30451861, 0.220195204, 0.211578697, 0.48590979, 0.4477925,
0.407113791, 0.371565908, 0.244072497, 0.215831101, 0.196051702, 0.181485295, 0.250560492, 0.246624902, 0.243563607, 0.239288598,
0.237141207, 0.233804703, 0.230059803, 0.227242097, 0.798415124, 0.423408002, 0.252412111, 0.236481294, 0.210627794, 0.195921198,
0.179079995, 0.167911306, 0.582077205, 0.358626604, 0.331971705, 0.314761907, 0.299488306, 0.277312309, 0.2584503, 0.237338305,
0.660579324, 0.398750186, 0.377056003, 0.251215607, 0.241874993, 0.230143502, 0.2256791, 0.2108621, 0.428948313, 0.376988202,
0.342425615, 0.316788614, 0.288987786, 0.267551899, 0.254560292, 0.243261501, 0.50883007, 0.497529596, 0.431094199, 0.415281802,
0.206381693, 0.197642207, 0.164573893, 0.154588997, 0.452467293, 0.422564894, 0.392098486, 0.297083795, 0.272210211, 0.256546289,
0.240366295, 0.228474706, 0.489476413, 0.45476979, 0.311116099, 0.290227592, 0.270027399, 0.255618602, 0.244821802, 0.232739493,
0.398461312, 0.339088798, 0.319752991, 0.302012205, 0.287541986, 0.276678205, 0.265859306, 0.256481707, 0.587753475, 0.552667022,
0.308108509, 0.270597905, 0.228836194, 0.1957165, 0.1738244, 0.158206195, 0.503185511, 0.375064313, 0.355020702, 0.340230495,
0.319781005, 0.240521193, 0.224502996, 0.213186502, 0.645462275, 0.443195492, 0.387717307, 0.323145092, 0.237352103, 0.217865497,
0.197238401, 0.180395797, 0.400130391, 0.346400887, 0.335907012, 0.327495903, 0.313422889, 0.304062694, 0.291561514, 0.242061198,
0.639287412, 0.574228227, 0.526581526, 0.202837601, 0.177233294, 0.157994404, 0.147367701, 0.139960602, 0.4209162, 0.3875359,
0.361371607, 0.3411071, 0.323446006, 0.261898309, 0.246110603, 0.231978402, 0.504510224, 0.441484004, 0.373584807, 0.347889513,
0.314899087, 0.280115306, 0.199820206, 0.159353897, 0.336585402, 0.326704502, 0.318191886, 0.309520811, 0.299684107, 0.286582887,
0.269767195, 0.257053792, 0.753062129, 0.468438387, 0.419902295, 0.369173914, 0.195251107, 0.166818097, 0.142167002, 0.121624298,
0.477921605, 0.372299492, 0.35071671, 0.330361187, 0.307782412, 0.281583309, 0.245650604, 0.222586095, 0.620588005, 0.342560887,
0.306333303, 0.275765806, 0.261740804, 0.244214594, 0.233427495, 0.221935406, 0.456849694, 0.436439902, 0.347275198, 0.319817692,
0.272024691, 0.253915906, 0.238032401, 0.224149704, 0.583224416, 0.542428195, 0.427703589, 0.380912304, 0.261464894, 0.215777993,
0.183389798, 0.164375395, 0.485220999, 0.457806706, 0.383550286, 0.355041504, 0.312895596, 0.264654398, 0.236776397, 0.215455905,
0.572352827, 0.514491796, 0.352849901, 0.324427307, 0.257855713, 0.222704798, 0.192746207, 0.181920096, 0.369407207, 0.3470698,
0.335399508, 0.325541496, 0.315290809, 0.300030708, 0.263583988, 0.247348994, 0.664305985, 0.602330923, 0.38242349, 0.338183194,
0.198669598, 0.165359795, 0.142789796, 0.127555802, 0.595254123, 0.397314012, 0.36312291, 0.345643312, 0.330941498, 0.30742979,
0.238499597, 0.2036587, 0.699986875, 0.46519199, 0.424909204, 0.366356909, 0.313908309, 0.285681605, 0.1203769, 0.0998044983,
0.402254611, 0.373059809, 0.358155906, 0.344734102, 0.33079201, 0.312471896, 0.283774912, 0.268585593, 0.532712817, 0.491917104,
0.456003994, 0.277663201, 0.241322502, 0.191540197, 0.165470704, 0.139096007, 0.436172605, 0.360643089, 0.344549596, 0.339150608,
0.32635811, 0.317778498, 0.303362101, 0.191241995, 0.506475329, 0.463371485, 0.444274813, 0.330327511, 0.305122197, 0.271711707,
0.245031402, 0.199419096, 0.200000003, 0.200000003, 0.200000003, 0.200000003, 0.200000003, 0.200000003, 0.200000003, 0.200000003,
0.746549428, 0.377240986, 0.35240671, 0.334551394, 0.221524805, 0.198144704, 0.177453607, 0.167830095, 0.537308872, 0.399329901,
0.305086911, 0.280331314, 0.262600094, 0.249283195, 0.2374717, 0.224263504, 0.67744869, 0.285797894, 0.265362501, 0.254235089,
0.246509001, 0.237541094, 0.231736407, 0.224377498, 0.39902401, 0.383844912, 0.37154299, 0.282418996, 0.267744601, 0.258533001,
0.234249294, 0.230134293, 0.608778775, 0.444383413, 0.401804, 0.358097404, 0.212917298, 0.186499402, 0.1654374, 0.126036793,
0.507749975, 0.451417387, 0.392828286, 0.295844406, 0.264884114, 0.238039702, 0.222999901, 0.208301693, 0.53450501, 0.487860292,
0.348909914, 0.311725289, 0.276816905, 0.245476305, 0.220338494, 0.200979799, 0.394557714, 0.304796398, 0.294162005, 0.287020087,
0.278066188, 0.271539092, 0.261757493, 0.255416006, 0.670984626, 0.631173313, 0.248139903, 0.222259507, 0.201835707, 0.190436199,
0.178117201, 0.170095801, 0.482109487, 0.384109497, 0.353091508, 0.310661197, 0.277302504, 0.260345608, 0.248678595, 0.237294301,
0.622450411, 0.3709822, 0.343819112, 0.321341604, 0.272132188, 0.226706997, 0.202493906, 0.186128899, 0.392144293, 0.37506339,
0.350521505, 0.338842899, 0.276438594, 0.266699791, 0.25369069, 0.243395194, 0.672554374, 0.576925099, 0.512280703, 0.306167811,
0.155898094, 0.132708803, 0.114266701, 0.105999701, 0.444570094, 0.411084294, 0.378456205, 0.31052351, 0.292036206, 0.2765733,
0.258991301, 0.243514493, 0.478695005, 0.45024839, 0.40613851, 0.377788305, 0.338182002, 0.313101798, 0.157676205, 0.133608699,
0.318284005, 0.304056406, 0.294712186, 0.288337797, 0.281940997, 0.27426061, 0.265904009, 0.259742111, 0.716673613, 0.554181576,
0.385207295, 0.311554492, 0.207318693, 0.161536396, 0.137604594, 0.124208599, 0.506732523, 0.357925296, 0.319644898, 0.300405502,
0.285009712, 0.270127892, 0.2544128, 0.239703804, 0.588022113, 0.444867313, 0.382067204, 0.261773914, 0.239010006, 0.222220898,
0.203599706, 0.187005594, 0.492462486, 0.404794008, 0.330412805, 0.307378888, 0.293076485, 0.278375506, 0.26365909, 0.247578993,
0.656737328, 0.507376015, 0.457040995, 0.41017741, 0.209187806, 0.175551593, 0.159177795, 0.136952206, 0.447818607, 0.414439589,
0.388981611, 0.351915807, 0.323166102, 0.258709192, 0.236944199, 0.2217547, 0.566983521, 0.528510273, 0.400162905, 0.281841904,
0.243393004, 0.218911603, 0.201789007, 0.189944804, 0.378681809, 0.360952914, 0.343892604, 0.311944187, 0.287528813, 0.268476307,
0.255228996, 0.246293202, 0.696549475, 0.601344407, 0.375052005, 0.237351, 0.227789193, 0.2157083, 0.151163593, 0.128281206,
0.581550121, 0.432847589, 0.387780488, 0.35895431, 0.325882614, 0.261098415, 0.226299301, 0.199659303, 0.678474128, 0.426652014,
0.361238509, 0.328459591, 0.304303795, 0.273554593, 0.220131904, 0.180279702, 0.418879092, 0.395595402, 0.371836603, 0.350870997,
0.329808712, 0.296715289, 0.265771508, 0.246992007, 0.600657403, 0.458913893, 0.419374287, 0.271364212, 0.239109099, 0.204223901,
0.172419503, 0.153508201, 0.450394213, 0.415853709, 0.364789397, 0.346676111, 0.320408791, 0.303776503, 0.257751614, 0.206300497,
0.517511487, 0.480893195, 0.394435406, 0.362192601, 0.269063205, 0.251040787, 0.234342396, 0.218250796, 0.28991589, 0.281576812,
0.274680704, 0.270171791, 0.263741791, 0.258472204, 0.253948599, 0.247745901, 0.749337077, 0.528952301, 0.312084913, 0.285631508,
0.252695411, 0.2039745, 0.157688007, 0.131605804, 0.532494485, 0.375744194, 0.3498303, 0.328130096, 0.311742812, 0.288091898,
0.243848294, 0.217015699, 0.733819723, 0.358022302, 0.333831698, 0.309637398, 0.271941602, 0.229526803, 0.2065292, 0.191403896,
0.416512012, 0.393372595, 0.333550513, 0.314984798, 0.302455306, 0.292147309, 0.279955596, 0.266786695, 0.564118207, 0.501424074,
0.461200207, 0.424880385, 0.2321565, 0.197707593, 0.183858797, 0.164594606, 0.511936128, 0.427510411, 0.396060586, 0.321927607,
0.293091714, 0.269842088, 0.249073401, 0.231064796, 0.545861602, 0.426451206, 0.33907479, 0.316001594, 0.297302514, 0.270628095,
0.2326805, 0.204564095, 0.429282814, 0.340971798, 0.325760186, 0.311764091, 0.300614804, 0.290077507, 0.274390608, 0.25913009,
0.645995975, 0.527329683, 0.355335593, 0.258142501, 0.230329603, 0.214886501, 0.1980322, 0.187122598, 0.498349994, 0.407925308,
0.38041079, 0.359092087, 0.330216408, 0.301807612, 0.263464987, 0.219411597, 0.584805429, 0.465738207, 0.430075705, 0.32742399,
0.281780392, 0.242332503, 0.214080602, 0.191713393, 0.41610679, 0.372810602, 0.343836993, 0.33178401, 0.312512904, 0.297888309,
0.25117901, 0.233747602, 0.59737438, 0.570507228, 0.538308799, 0.281223804, 0.226969704, 0.178463697, 0.146858707, 0.131814107,
0.45754379, 0.419385791, 0.384570092, 0.362798303, 0.294984996, 0.278775901, 0.266207814, 0.247603595, 0.454195201, 0.435934901,
0.413448989, 0.3772811, 0.322582096, 0.283117294, 0.221106097, 0.200240403, 0.33759281, 0.325606704, 0.318438888, 0.312722415,
0.304870605, 0.298898101, 0.291959196, 0.277776688, 0.669740915, 0.495050997, 0.422131389, 0.338727891, 0.307461411, 0.188500106,
0.148084193, 0.133595303, 0.474869192, 0.378552794, 0.347936898, 0.324600309, 0.311189413, 0.301385999, 0.291177511, 0.278026789,
0.581255078, 0.386140615, 0.360911101, 0.329994887, 0.291525394, 0.259767801, 0.238456607, 0.214007095, 0.447766602, 0.42196539,
0.340977609, 0.322071999, 0.304491013, 0.288268298, 0.270856798, 0.248505801, 0.550617218, 0.45165661, 0.40943101, 0.382371813,
0.336822897, 0.229288504, 0.206344396, 0.179317802, 0.498640895, 0.474791497, 0.436583996, 0.404644698, 0.288896114, 0.254027307,
0.226126805, 0.203122601, 0.550058901, 0.517119706, 0.386205107, 0.351095498, 0.314737886, 0.266584188, 0.216021106, 0.185793206,
0.384268314, 0.365374893, 0.345507503, 0.328041196, 0.312227309, 0.300732106, 0.2881203, 0.274228394, 0.654842377, 0.532516003,
0.4093467, 0.336804092, 0.226379797, 0.191591695, 0.174820006, 0.153385505, 0.557139516, 0.411682993, 0.386327714, 0.367798597,
0.345985413, 0.3233836, 0.292946994, 0.174499005, 0.620777428, 0.472461611, 0.405128092, 0.381077707, 0.335584611, 0.259877205,
0.1835794, 0.157210201, 0.393971205, 0.385838211, 0.372226804, 0.362576097, 0.351382405, 0.339779496, 0.319958895, 0.224771202,
0.546479285, 0.497758389, 0.492475688, 0.308577091, 0.291855901, 0.277856797, 0.188818306, 0.154910505, 0.42990461, 0.404145807,
0.385579109, 0.369333893, 0.352304012, 0.320591211, 0.270090312, 0.241000593, 0.547492206, 0.443347007, 0.416097701, 0.347500712,
0.317251205, 0.292920709, 0.215221897, 0.190538302, 0.64749217, 0.543347001, 0.516097724, 0.447500706, 0.41725111, 0.392920703,
0.315221906, 0.2905384, 0.77007091, 0.453136295, 0.426351994, 0.270502806, 0.2363846, 0.144300103, 0.134107307, 0.124821097,
0.554097176, 0.326026201, 0.303154796, 0.293165505, 0.276736289, 0.266902804, 0.258459985, 0.242613405, 0.764452815, 0.330218613,
0.281039894, 0.265127391, 0.243480206, 0.221798107, 0.210152104, 0.192476705, 0.410055995, 0.381808788, 0.31563139, 0.2959598,
0.283975095, 0.273520887, 0.264883697, 0.2558164, 0.575855017, 0.458541989, 0.414943099, 0.38658151, 0.2254702, 0.165635899,
0.147358701, 0.125803098, 0.47340399, 0.436356306, 0.409349412, 0.320085794, 0.291660607, 0.256804913, 0.219012201, 0.200090095,
0.570829511, 0.488277614, 0.313984185, 0.280150503, 0.254368007, 0.239799902, 0.224567503, 0.210822895, 0.472285092, 0.301825106,
0.287238598, 0.275752693, 0.268283308, 0.262454212, 0.254612803, 0.247527197, 0.718949616, 0.614687979, 0.2981067, 0.234320894,
0.199700594, 0.174143896, 0.156350702, 0.140112907, 0.515730083, 0.405873805, 0.349727899, 0.302368194, 0.261009514, 0.240938306,
0.229313195, 0.218629703, 0.603835523, 0.406467915, 0.377715409, 0.336328089, 0.26571101, 0.240448102, 0.214529797, 0.135960907,
0.384100288, 0.36802721, 0.350364804, 0.336103112, 0.319557697, 0.285021901, 0.2637707, 0.248609498, 0.629307985, 0.598371625,
0.548735976, 0.258285701, 0.184865296, 0.141196206, 0.125606, 0.1109965, 0.43573311, 0.410264313, 0.389943391, 0.370644003,
0.277581811, 0.258597493, 0.2422034, 0.221490204, 0.518048823, 0.454370499, 0.430015713, 0.349828988, 0.314125806, 0.283008695,
0.138661802, 0.119796403, 0.350993186, 0.313169301, 0.299649805, 0.289118707, 0.282225311, 0.276204795, 0.269846886, 0.262147695,
0.733328223, 0.530842125, 0.407573789, 0.244615495, 0.204990298, 0.190987706, 0.1550771, 0.135580093, 0.460039586, 0.360056996,
0.336236, 0.316154599, 0.299854606, 0.283565909, 0.265704691, 0.248787001, 0.60739398, 0.428831697, 0.324529111, 0.292751789,
0.263841301, 0.232154399, 0.212699905, 0.196825296, 0.445185691, 0.417719305, 0.319101006, 0.298344791, 0.284157097, 0.272725403,
0.263058186, 0.250281304, 0.642535925, 0.570723414, 0.474597394, 0.413273513, 0.156902507, 0.1346367, 0.121017098, 0.107449301,
0.467286497, 0.442431599, 0.410946608, 0.383251607, 0.267952889, 0.251494497, 0.234465495, 0.220819503, 0.495767295, 0.46585381,
0.387053609, 0.339007795, 0.309001893, 0.227557793, 0.196305498, 0.184093803, 0.365889698, 0.349449992, 0.328435898, 0.310857385,
0.293788403, 0.280510902, 0.269937009, 0.259983897, 0.669783175, 0.596770585, 0.461731404, 0.249974906, 0.205000594, 0.160636097,
0.1409951, 0.124915197, 0.543663025, 0.431292206, 0.396814495, 0.357531488, 0.287824601, 0.246678904, 0.2292566, 0.213395596,
0.745722592, 0.413821608, 0.360494912, 0.342808306, 0.324223489, 0.291388005, 0.165702805, 0.113537803, 0.400759697, 0.383605391,
0.363855302, 0.345920086, 0.310391188, 0.298339903, 0.289601088, 0.277511895, 0.647645295, 0.4732171, 0.459504396, 0.2223254,
0.214058802, 0.196719199, 0.191218197, 0.182304293, 0.449063987, 0.370564103, 0.362903386, 0.343381405, 0.335824311, 0.32066831,
0.216211706, 0.200678498, 0.507070303, 0.466997713, 0.441641986, 0.328807294, 0.257048905, 0.2306813, 0.216767594, 0.201042295,
0.265447408, 0.261992991, 0.258367509, 0.255993307, 0.253320307, 0.250107408, 0.247769102, 0.244130298, 0.798179626, 0.435313702,
0.329068512, 0.281160086, 0.241046205, 0.197331101, 0.166777, 0.137180895, 0.544603407, 0.352915913, 0.335938901, 0.322230101,
0.310611606, 0.299052298, 0.281633109, 0.263540387, 0.696905315, 0.428579509, 0.309189498, 0.27675721, 0.253389299, 0.234970301,
0.215438604, 0.197500601, 0.426133305, 0.395904094, 0.363379091, 0.333784789, 0.300840199, 0.282256991, 0.269535691, 0.255534708,
0.540708005, 0.4872621, 0.432810694, 0.383469194, 0.245200098, 0.222370401, 0.206972703, 0.195160195, 0.471159309, 0.444907606,
0.416640699, 0.313215196, 0.288035601, 0.272313595, 0.257470489, 0.238639399, 0.495514303, 0.459846497, 0.362836003, 0.314830899,
0.283807009, 0.262633294, 0.248284698, 0.234082699, 0.395769805, 0.344723791, 0.32303381, 0.312572688, 0.303043097, 0.294607401,
0.285420388, 0.272405207, 0.619657576, 0.579481423, 0.300938815, 0.260644615, 0.239674702, 0.229470894, 0.210337803, 0.194402605,
0.522473276, 0.404949099, 0.381681114, 0.358855814, 0.324376315, 0.275407404, 0.235201597, 0.214345202, 0.630054176, 0.451244205,
0.408478707, 0.369786888, 0.270291209, 0.230562806, 0.207992494, 0.183851898, 0.398064911, 0.363663286, 0.350212306, 0.339859903,
0.326084197, 0.317219496, 0.300161213, 0.242509902, 0.632189214, 0.561335087, 0.464271098, 0.254886895, 0.221814707, 0.194097102,
0.171169594, 0.157672107, 0.415005088, 0.400523514, 0.387564093, 0.372716397, 0.3047373, 0.280178308, 0.259412408, 0.245634407,
0.489179492, 0.406848907, 0.395899594, 0.353482515, 0.340980202, 0.301588804, 0.227529198, 0.164705798, 0.348657012, 0.334488809,
0.316401899, 0.300620705, 0.291765302, 0.282687992, 0.276462615, 0.268266499, 0.705194473, 0.458559185, 0.423082501, 0.368777394,
0.227374598, 0.192098305, 0.170989305, 0.144172207, 0.459060192, 0.379269093, 0.355474114, 0.336530894, 0.316437006, 0.295322686,
0.2677477, 0.248970002, 0.603379786, 0.393348813, 0.328679293, 0.291634291, 0.274011105, 0.259741813, 0.241924196, 0.221494898,
0.470052004, 0.428241909, 0.360301197, 0.334939092, 0.305363506, 0.273919702, 0.247093201, 0.225309193, 0.56325531, 0.520811915,
0.489837915, 0.348335713, 0.277662396, 0.213947207, 0.189840704, 0.167654097, 0.519257486, 0.462565899, 0.36761409, 0.34199959,
0.323036402, 0.296644807, 0.2430242, 0.208729401, 0.588600516, 0.55482161, 0.335041404, 0.314036906, 0.277617991, 0.247590899,
0.218520805, 0.197560996, 0.371199489, 0.359025508, 0.349102914, 0.333999008, 0.3012577, 0.285201311, 0.274603397, 0.2651757,
0.627361417, 0.596194327, 0.376297504, 0.316877007, 0.220165402, 0.197829604, 0.176329494, 0.155884698, 0.584437311, 0.403821111,
0.390462995, 0.372971088, 0.355260611, 0.3312217, 0.195966706, 0.174532503, 0.654459476, 0.439061999, 0.414108396, 0.378061503,
0.349183589, 0.322774708, 0.146688595, 0.119720303, 0.397188604, 0.383909315, 0.372872293, 0.360667497, 0.346743196, 0.337053001,
0.317510307, 0.300433695, 0.549374223, 0.506358504, 0.477867007, 0.281107605, 0.246440202, 0.227238506, 0.213558003, 0.197737902,
0.445258498, 0.386283785, 0.364309907, 0.34758231, 0.333728999, 0.319698006, 0.297279894, 0.239239007, 0.532374084, 0.494536102,
0.448556513, 0.338487804, 0.3038477, 0.255597204, 0.225088805, 0.200504407, 0.632374108, 0.594536126, 0.548556507, 0.438487798,
0.403847694, 0.355597109, 0.325088799, 0.300504386, 0.771406591, 0.412811905, 0.390592188, 0.329338193, 0.283218801, 0.202285096,
0.150070593, 0.123923503, 0.558157623, 0.413722605, 0.330134809, 0.305683494, 0.290028512, 0.276758701, 0.26314941, 0.245675594,
0.686843216, 0.318621993, 0.308588505, 0.284276903, 0.268439889, 0.245079905, 0.231796697, 0.212246403, 0.405396402, 0.390617013,
0.373263896, 0.31066221, 0.286388308, 0.269575298, 0.252149105, 0.241263002, 0.585572422, 0.427683413, 0.402517289, 0.365208209,
0.255207688, 0.205520704, 0.181972906, 0.121339403, 0.524745703, 0.491837502, 0.411461502, 0.297987401, 0.277028292, 0.258545607,
0.239141107, 0.220290795, 0.532426715, 0.495471001, 0.324716806, 0.300361186, 0.285602897, 0.26992631, 0.250343114, 0.231895104,
0.371248096, 0.324269503, 0.312530696, 0.304991812, 0.296665788, 0.287037313, 0.277724296, 0.266186208, 0.674137592, 0.597411215,
0.280782104, 0.255215496, 0.236139894, 0.215813607, 0.193599805, 0.180784702, 0.505282819, 0.395019203, 0.368961513, 0.337007195,
0.296915293, 0.277198702, 0.263797104, 0.246445104, 0.600301206, 0.388646007, 0.359262288, 0.333289504, 0.310136795, 0.237488195,
0.199323803, 0.170564398, 0.396808207, 0.375928998, 0.363498986, 0.347824693, 0.297404885, 0.281165808, 0.269754797, 0.2551893,
0.650840402, 0.545094192, 0.507714808, 0.335824102, 0.200408801, 0.165129304, 0.139271706, 0.1224069, 0.438525707, 0.416576892,
0.396782905, 0.334409803, 0.31248489, 0.292408794, 0.274031401, 0.254337907, 0.518720806, 0.479794592, 0.433153212, 0.392264098,
0.350493908, 0.3303186, 0.206259996, 0.158195898, 0.306107312, 0.299942315, 0.296432614, 0.292649686, 0.288648307, 0.284934103,
0.278670102, 0.272133797, 0.725298703, 0.542836189, 0.424024999, 0.31970349, 0.256828308, 0.174342707, 0.117996201, 0.0982420966,
0.497246593, 0.340917289, 0.324341804, 0.312778294, 0.300777912, 0.288707107, 0.273830801, 0.253569007, 0.582937777, 0.427300006,
0.377488703, 0.292193294, 0.270373493, 0.250633895, 0.232180402, 0.213116795, 0.484440207, 0.455564409, 0.337727696, 0.319041103,
0.299702615, 0.28322041, 0.267141998, 0.244339406, 0.590705216, 0.539024174, 0.485243708, 0.389095902, 0.217765003, 0.183161005,
0.160510898, 0.145963907, 0.475399911, 0.436198503, 0.3971138, 0.372031897, 0.340980202, 0.237029105, 0.217381194, 0.201377004,
0.588565588, 0.543600202, 0.411276489, 0.312510699, 0.277846307, 0.243291795, 0.216277406, 0.191267207, 0.392925113, 0.3697263,
0.344398409, 0.31245029, 0.296437413, 0.283708394, 0.271243691, 0.255502194, 0.670430183, 0.615318716, 0.33878091, 0.272284508,
0.247073904, 0.210129306, 0.159126803, 0.134147704, 0.610346973, 0.420204788, 0.396702707, 0.374969691, 0.305068403, 0.279056609,
0.253670007, 0.200060502, 0.70636493, 0.423983812, 0.378629804, 0.353929907, 0.320918202, 0.290245414, 0.243409097, 0.121536799,
0.430576503, 0.398623198, 0.380654007, 0.361747712, 0.323873997, 0.305796802, 0.292283207, 0.272796303, 0.623437107, 0.486218512,
0.448122591, 0.300227314, 0.253136009, 0.217278406, 0.196402907, 0.176594496, 0.449885309, 0.420701802, 0.397143304, 0.370463789,
0.342518002, 0.304124504, 0.243880704, 0.222127795, 0.550980628, 0.466307491, 0.425468892, 0.391445398, 0.279400498, 0.26097849,
0.242879793, 0.206256002, 0.292737097, 0.287013501, 0.283731103, 0.280919403, 0.276650399, 0.273080707, 0.267489702, 0.264712811,
0.713552594, 0.490203291, 0.37577939, 0.2831963, 0.238730103, 0.2117185, 0.1880465, 0.156378999, 0.556600571, 0.398862004,
0.374378502, 0.339850307, 0.308768988, 0.288884908, 0.269093007, 0.237046897, 0.705836773, 0.428774804, 0.368166208, 0.330860406,
0.278529912, 0.225595698, 0.193605304, 0.171565205, 0.438539803, 0.414609909, 0.349651009, 0.332089007, 0.318684906, 0.306190103,
0.292654902, 0.275787592, 0.577498972, 0.491436094, 0.466991693, 0.434161812, 0.280165911, 0.242343694, 0.190667406, 0.149564102,
0.509242594, 0.452242404, 0.413524687, 0.338457197, 0.317617506, 0.29427591, 0.269221187, 0.239510804, 0.603740215, 0.463026494,
0.339900404, 0.311927706, 0.294079989, 0.27720359, 0.253873706, 0.216941506, 0.436471105, 0.360933304, 0.342932105, 0.3306247,
0.316796988, 0.302452713, 0.288309008, 0.270878285, 0.653839409, 0.525648892, 0.317200601, 0.290598601, 0.263801694, 0.2313658,
0.203929499, 0.178303495, 0.505666018, 0.400794208, 0.377986103, 0.361350685, 0.343787491, 0.326958507, 0.3052077, 0.212937996,
0.598821104, 0.485149294, 0.388550401, 0.330612391, 0.3025783, 0.270785689, 0.235989302, 0.193853006, 0.401734889, 0.368949801,
0.355842799, 0.348027915, 0.337699294, 0.326432109, 0.256244898, 0.245189801, 0.604207814, 0.548780978, 0.50757581, 0.302844793,
0.258398801, 0.213739902, 0.169677004, 0.135776401, 0.473049313, 0.437453002, 0.413619906, 0.377767891, 0.307315707, 0.276838809,
0.259631097, 0.236874193, 0.498418599, 0.452866495, 0.424980611, 0.390521705, 0.355079114, 0.28703481, 0.230665699, 0.200865403,
0.360506386, 0.345984489, 0.333317608, 0.320788085, 0.310414702, 0.299003601, 0.287728786, 0.271651804, 0.656650722, 0.5107041,
0.449412912, 0.350104004, 0.291050106, 0.246657804, 0.156159997, 0.122317202, 0.510990679, 0.381072104, 0.357783407, 0.345313787,
0.32855019, 0.305015206, 0.282434493, 0.245272204, 0.633563697, 0.364712507, 0.342837304, 0.318532199, 0.296248913, 0.265419185,
0.242594302, 0.208610401, 0.477917105, 0.433074504, 0.367624909, 0.342633188, 0.3216317, 0.296043307, 0.278046906, 0.256701589,
0.531871676, 0.494817704, 0.450123101, 0.395538002, 0.342441887, 0.234065399, 0.1875173, 0.163280696, 0.507919371, 0.488187194,
0.412391514, 0.396097988, 0.29479751, 0.285281688, 0.257877588, 0.250028104, 0.558203518, 0.53505671, 0.348384291, 0.333477408,
0.307484388, 0.297634214, 0.236102402, 0.221695393, 0.373384506, 0.360814005, 0.349441707, 0.339348286, 0.328377396, 0.317141086,
0.303738296, 0.288286805, 0.642015278, 0.579695702, 0.430388302, 0.310229808, 0.264193803, 0.196172893, 0.163624093, 0.135855705,
0.619729817, 0.418994695, 0.380668491, 0.364821315, 0.346121997, 0.325858891, 0.287990302, 0.145441607, 0.60847348, 0.450327098,
0.426184595, 0.374583691, 0.325947404, 0.294524908, 0.245291695, 0.148998499, 0.417018414, 0.403662801, 0.395301789, 0.386110902,
0.376417786, 0.357542187, 0.313093007, 0.190327793, 0.570216, 0.526538312, 0.460972607, 0.333054394, 0.293767393, 0.250791103,
0.220857993, 0.167035297, 0.466925502, 0.429704696, 0.405284703, 0.365653306, 0.344810605, 0.324952006, 0.286731601, 0.252238899,
0.55347991, 0.454424888, 0.403298497, 0.371473014, 0.334022105, 0.299825698, 0.26707539, 0.198282093};
/* symbol, length, word */
static const int ht_huff[10][5][15][3] = {
{{{1,3,0},{0,4,2},{5,4,3},{3,2,1},{2,2,2},{4,2,3},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0}},
{{0,3,0},{4,4,2},{5,4,3},{2,2,1},{3,2,2},{1,2,3},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0}},
{{2,3,0},{3,4,2},{4,5,6},{5,5,7},{1,2,1},{0,1,1},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0}},
{{0,1,0},{2,3,4},{3,4,10},{4,5,22},{5,5,23},{1,2,3},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0}},
{{3,3,0},{4,4,2},{5,4,3},{0,2,1},{1,2,2},{2,2,3},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0}}
},
{{{5,3,0},{2,3,1},{4,2,1},{3,2,2},{1,3,6},{0,4,14},{6,4,15},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0}},
{{2,3,0},{1,3,1},{3,2,1},{4,2,2},{5,3,6},{0,4,14},{6,4,15},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0}},
{{3,3,0},{4,4,2},{5,5,6},{6,5,7},{0,2,1},{1,2,2},{2,2,3},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0}},
{{0,1,0},{3,4,8},{4,5,18},{5,6,38},{6,6,39},{2,3,5},{1,2,3},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0}},
{{4,3,0},{0,3,1},{5,4,4},{6,4,5},{1,3,3},{3,2,2},{2,2,3},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0}}
},
{{{6,3,0},{3,3,1},{5,2,1},{7,5,16},{0,5,17},{1,4,9},{2,3,5},{4,2,3},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0}},
{{3,3,0},{1,4,2},{0,5,6},{7,5,7},{4,2,1},{2,3,4},{6,3,5},{5,2,3},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0}},
{{1,3,0},{0,3,1},{4,3,2},{5,4,6},{6,5,14},{7,5,15},{2,2,2},{3,2,3},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0}},
{{1,3,0},{4,4,2},{5,5,6},{6,6,14},{7,6,15},{2,3,2},{3,3,3},{0,1,1},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0}},
{{5,3,0},{3,3,1},{0,4,4},{7,4,5},{2,3,3},{6,3,4},{1,3,5},{4,2,3},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0}}
},
{{{7,3,0},{4,3,1},{6,2,1},{1,6,32},{0,6,33},{8,5,17},{2,4,9},{3,3,5},{5,2,3},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0}},
{{4,3,0},{2,4,2},{1,5,6},{0,6,14},{8,6,15},{5,2,1},{3,3,4},{7,3,5},{6,2,3},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0}},
{{3,3,0},{2,3,1},{5,3,2},{1,3,3},{6,4,8},{7,5,18},{8,5,19},{0,3,5},{4,2,3},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0}},
{{0,2,0},{1,3,2},{2,3,3},{3,3,4},{4,3,5},{5,3,6},{6,4,14},{7,5,30},{8,5,31},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0}},
{{5,3,0},{6,3,1},{4,3,2},{3,3,3},{7,3,4},{2,3,5},{0,4,12},{8,4,13},{1,3,7},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0}}
},
{{{8,3,0},{2,6,8},{1,7,18},{0,7,19},{9,5,5},{3,4,3},{7,2,1},{5,3,4},{4,3,5},{6,2,3},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0}},
{{5,3,0},{0,7,16},{9,7,17},{1,6,9},{2,5,5},{3,4,3},{6,2,1},{4,3,4},{8,3,5},{7,2,3},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0}},
{{7,4,0},{1,4,1},{4,3,1},{6,3,2},{3,3,3},{2,3,4},{0,4,10},{8,5,22},{9,5,23},{5,2,3},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0}},
{{6,4,0},{7,5,2},{8,6,6},{9,6,7},{2,3,1},{0,2,1},{3,3,4},{1,3,5},{4,3,6},{5,3,7},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0}},
{{6,3,0},{7,3,1},{5,3,2},{4,3,3},{2,4,8},{1,4,9},{8,3,5},{3,3,6},{9,4,14},{0,4,15},{0,0,0},{0,0,0},{0,0,0},{0,0,0},{0,0,0}}
},
{{{9,3,0},{5,4,2},{3,5,6},{2,6,14},{1,7,30},{0,7,31},{8,2,1},{6,3,4},{4,4,10},{10,4,11},{7,2,3},{0,0,0},{0,0,0},{0,0,0},{0,0,0}},
{{6,3,0},{10,8,32},{0,8,33},{1,7,17},{2,6,9},{3,5,5},{4,4,3},{7,2,1},{5,3,4},{9,3,5},{8,2,3},{0,0,0},{0,0,0},{0,0,0},{0,0,0}},
{{5,3,0},{8,4,2},{2,4,3},{7,3,2},{4,3,3},{9,5,16},{0,6,34},{10,6,35},{1,4,9},{3,3,5},{6,2,3},{0,0,0},{0,0,0},{0,0,0},{0,0,0}},
{{6,4,0},{7,4,1},{1,4,2},{8,5,6},{9,6,14},{10,6,15},{3,3,2},{4,3,3},{0,2,2},{5,3,6},{2,3,7},{0,0,0},{0,0,0},{0,0,0},{0,0,0}},
{{7,3,0},{8,3,1},{6,3,2},{5,3,3},{9,3,4},{3,4,10},{2,4,11},{4,3,6},{1,5,28},{0,5,29},{10,4,15},{0,0,0},{0,0,0},{0,0,0},{0,0,0}}
},
{{{10,3,0},{6,4,2},{4,5,6},{3,6,14},{2,7,30},{1,8,62},{0,8,63},{9,2,1},{7,3,4},{5,4,10},{11,4,11},{8,2,3},{0,0,0},{0,0,0},{0,0,0}},
{{7,3,0},{11,8,32},{1,9,66},{0,9,67},{2,7,17},{3,6,9},{4,5,5},{5,4,3},{8,2,1},{6,3,4},{10,3,5},{9,2,3},{0,0,0},{0,0,0},{0,0,0}},
{{9,4,0},{1,6,4},{0,7,10},{11,7,11},{10,5,3},{6,3,1},{8,3,2},{5,3,3},{3,4,8},{2,4,9},{4,3,5},{7,2,3},{0,0,0},{0,0,0},{0,0,0}},
{{0,3,0},{8,4,2},{2,4,3},{9,5,8},{10,6,18},{11,6,19},{1,4,5},{5,3,3},{4,3,4},{6,3,5},{7,3,6},{3,3,7},{0,0,0},{0,0,0},{0,0,0}},
{{8,3,0},{9,3,1},{7,3,2},{6,3,3},{4,4,8},{2,5,18},{1,6,38},{0,6,39},{10,3,5},{5,3,6},{3,4,14},{11,4,15},{0,0,0},{0,0,0},{0,0,0}}
},
{{{11,3,0},{7,4,2},{5,5,6},{4,6,14},{3,7,30},{2,8,62},{1,9,126},{0,9,127},{10,2,1},{8,3,4},{6,4,10},{12,4,11},{9,2,3},{0,0,0},{0,0,0}},
{{8,3,0},{12,8,32},{2,9,66},{1,10,134},{0,10,135},{3,7,17},{4,6,9},{5,5,5},{6,4,3},{9,2,1},{7,3,4},{11,3,5},{10,2,3},{0,0,0},{0,0,0}},
{{10,4,0},{3,5,2},{11,5,3},{7,3,1},{9,3,2},{6,3,3},{4,4,8},{2,5,18},{1,6,38},{0,7,78},{12,7,79},{5,3,5},{8,2,3},{0,0,0},{0,0,0}},
{{4,4,0},{9,4,1},{0,3,1},{3,4,4},{1,5,10},{11,6,22},{12,6,23},{6,3,3},{5,3,4},{7,3,5},{8,3,6},{2,4,14},{10,4,15},{0,0,0},{0,0,0}},
{{9,3,0},{10,3,1},{8,3,2},{7,3,3},{5,4,8},{2,6,36},{1,7,74},{0,7,75},{3,5,19},{11,3,5},{6,3,6},{4,4,14},{12,4,15},{0,0,0},{0,0,0}}
},
{{{12,3,0},{8,4,2},{5,6,12},{4,7,26},{3,8,54},{2,9,110},{1,10,222},{0,10,223},{6,5,7},{11,2,1},{9,3,4},{7,4,10},{13,4,11},{10,2,3},{0,0,0}},
{{9,3,0},{3,9,64},{2,10,130},{1,11,262},{0,11,263},{13,8,33},{4,7,17},{5,6,9},{6,5,5},{7,4,3},{10,2,1},{8,3,4},{12,3,5},{11,2,3},{0,0,0}},
{{11,4,0},{4,5,2},{12,5,3},{8,3,1},{10,3,2},{7,3,3},{5,4,8},{2,6,36},{1,7,74},{13,8,150},{0,8,151},{3,5,19},{6,3,5},{9,2,3},{0,0,0}},
{{5,4,0},{10,4,1},{11,5,4},{2,5,5},{4,4,3},{0,3,2},{7,3,3},{6,3,4},{8,3,5},{9,3,6},{1,5,28},{12,6,58},{13,6,59},{3,4,15},{0,0,0}},
{{10,3,0},{11,3,1},{9,3,2},{6,4,6},{3,6,28},{2,7,58},{1,8,118},{0,8,119},{4,5,15},{8,3,4},{12,3,5},{7,3,6},{5,4,14},{13,4,15},{0,0,0}}
},
{{{13,3,0},{9,4,2},{6,6,12},{5,7,26},{4,8,54},{3,9,110},{2,10,222},{1,11,446},{0,11,447},{7,5,7},{12,2,1},{10,3,4},{8,4,10},{14,4,11},{11,2,3}},
{{10,3,0},{6,7,16},{5,7,17},{4,8,36},{3,9,74},{2,10,150},{1,11,302},{0,11,303},{14,7,19},{7,5,5},{8,4,3},{11,2,1},{9,3,4},{13,3,5},{12,2,3}},
{{12,4,0},{5,5,2},{13,5,3},{9,3,1},{11,3,2},{8,3,3},{6,4,8},{14,9,288},{0,9,289},{1,8,145},{2,7,73},{3,6,37},{4,5,19},{7,3,5},{10,2,3}},
{{4,5,0},{12,5,1},{6,4,1},{11,4,2},{2,6,12},{13,7,26},{14,7,27},{3,5,7},{5,4,4},{1,4,5},{8,3,3},{7,3,4},{9,3,5},{0,3,6},{10,3,7}},
{{11,3,0},{12,3,1},{10,3,2},{7,4,6},{4,6,28},{3,7,58},{2,8,118},{1,9,238},{0,9,239},{5,5,15},{9,3,4},{13,3,5},{8,3,6},{6,4,14},{14,4,15}}
}
};
#endif
