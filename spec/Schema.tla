------------------------------ MODULE Schema ------------------------------
(* All ASN.1 modules of the library, by name. *)
EXTENDS rfc1155, rfc1157, rfc1901, rfc1902, rfc1905, rfc2251, rfc2314, rfc2315,
        rfc2437, rfc2459, rfc2511, rfc2560, rfc2631, rfc2634, rfc2876, rfc2985,
        rfc2986, rfc3058, rfc3114, rfc3125, rfc3161, rfc3274, rfc3279, rfc3280,
        rfc3281, rfc3370, rfc3412, rfc3414, rfc3447, rfc3537, rfc3560, rfc3565,
        rfc3657, rfc3709, rfc3739, rfc3770, rfc3779, rfc3820, rfc3852, rfc4010,
        rfc4043, rfc4055, rfc4073, rfc4108, rfc4210, rfc4211, rfc4334, rfc4357,
        rfc4387, rfc4476, rfc4490, rfc4491, rfc4683, rfc4985, rfc5035, rfc5083,
        rfc5084, rfc5126, rfc5208, rfc5275, rfc5280, rfc5480, rfc5636, rfc5639,
        rfc5649, rfc5652, rfc5697, rfc5751, rfc5752, rfc5753, rfc5755, rfc5913,
        rfc5914, rfc5915, rfc5916, rfc5917, rfc5924, rfc5934, rfc5940, rfc5958,
        rfc5990, rfc6010, rfc6019, rfc6031, rfc6032, rfc6120, rfc6170, rfc6187,
        rfc6210, rfc6211, rfc6402, rfc6482, rfc6486, rfc6487, rfc6664, rfc6955,
        rfc6960, rfc7030, rfc7191, rfc7229, rfc7292, rfc7296, rfc7508, rfc7585,
        rfc7633, rfc7773, rfc7894, rfc7906, rfc7914, rfc8017, rfc8018, rfc8103,
        rfc8209, rfc8226, rfc8358, rfc8360, rfc8398, rfc8410, rfc8418, rfc8419,
        rfc8479, rfc8494, rfc8520, rfc8619, rfc8649, rfc8692, rfc8696, rfc8702,
        rfc8708, rfc8769


Modules == {"rfc1155", "rfc1157", "rfc1901", "rfc1902", "rfc1905", "rfc2251", "rfc2314", "rfc2315", "rfc2437", "rfc2459", "rfc2511", "rfc2560", "rfc2631", "rfc2634", "rfc2876", "rfc2985", "rfc2986", "rfc3058", "rfc3114", "rfc3125", "rfc3161", "rfc3274", "rfc3279", "rfc3280", "rfc3281", "rfc3370", "rfc3412", "rfc3414", "rfc3447", "rfc3537", "rfc3560", "rfc3565", "rfc3657", "rfc3709", "rfc3739", "rfc3770", "rfc3779", "rfc3820", "rfc3852", "rfc4010", "rfc4043", "rfc4055", "rfc4073", "rfc4108", "rfc4210", "rfc4211", "rfc4334", "rfc4357", "rfc4387", "rfc4476", "rfc4490", "rfc4491", "rfc4683", "rfc4985", "rfc5035", "rfc5083", "rfc5084", "rfc5126", "rfc5208", "rfc5275", "rfc5280", "rfc5480", "rfc5636", "rfc5639", "rfc5649", "rfc5652", "rfc5697", "rfc5751", "rfc5752", "rfc5753", "rfc5755", "rfc5913", "rfc5914", "rfc5915", "rfc5916", "rfc5917", "rfc5924", "rfc5934", "rfc5940", "rfc5958", "rfc5990", "rfc6010", "rfc6019", "rfc6031", "rfc6032", "rfc6120", "rfc6170", "rfc6187", "rfc6210", "rfc6211", "rfc6402", "rfc6482", "rfc6486", "rfc6487", "rfc6664", "rfc6955", "rfc6960", "rfc7030", "rfc7191", "rfc7229", "rfc7292", "rfc7296", "rfc7508", "rfc7585", "rfc7633", "rfc7773", "rfc7894", "rfc7906", "rfc7914", "rfc8017", "rfc8018", "rfc8103", "rfc8209", "rfc8226", "rfc8358", "rfc8360", "rfc8398", "rfc8410", "rfc8418", "rfc8419", "rfc8479", "rfc8494", "rfc8520", "rfc8619", "rfc8649", "rfc8692", "rfc8696", "rfc8702", "rfc8708", "rfc8769"}

TypeTab == [
  rfc1155 |-> rfc1155_Types,
  rfc1157 |-> rfc1157_Types,
  rfc1901 |-> rfc1901_Types,
  rfc1902 |-> rfc1902_Types,
  rfc1905 |-> rfc1905_Types,
  rfc2251 |-> rfc2251_Types,
  rfc2314 |-> rfc2314_Types,
  rfc2315 |-> rfc2315_Types,
  rfc2437 |-> rfc2437_Types,
  rfc2459 |-> rfc2459_Types,
  rfc2511 |-> rfc2511_Types,
  rfc2560 |-> rfc2560_Types,
  rfc2631 |-> rfc2631_Types,
  rfc2634 |-> rfc2634_Types,
  rfc2876 |-> rfc2876_Types,
  rfc2985 |-> rfc2985_Types,
  rfc2986 |-> rfc2986_Types,
  rfc3058 |-> rfc3058_Types,
  rfc3114 |-> rfc3114_Types,
  rfc3125 |-> rfc3125_Types,
  rfc3161 |-> rfc3161_Types,
  rfc3274 |-> rfc3274_Types,
  rfc3279 |-> rfc3279_Types,
  rfc3280 |-> rfc3280_Types,
  rfc3281 |-> rfc3281_Types,
  rfc3370 |-> rfc3370_Types,
  rfc3412 |-> rfc3412_Types,
  rfc3414 |-> rfc3414_Types,
  rfc3447 |-> rfc3447_Types,
  rfc3537 |-> rfc3537_Types,
  rfc3560 |-> rfc3560_Types,
  rfc3565 |-> rfc3565_Types,
  rfc3657 |-> rfc3657_Types,
  rfc3709 |-> rfc3709_Types,
  rfc3739 |-> rfc3739_Types,
  rfc3770 |-> rfc3770_Types,
  rfc3779 |-> rfc3779_Types,
  rfc3820 |-> rfc3820_Types,
  rfc3852 |-> rfc3852_Types,
  rfc4010 |-> rfc4010_Types,
  rfc4043 |-> rfc4043_Types,
  rfc4055 |-> rfc4055_Types,
  rfc4073 |-> rfc4073_Types,
  rfc4108 |-> rfc4108_Types,
  rfc4210 |-> rfc4210_Types,
  rfc4211 |-> rfc4211_Types,
  rfc4334 |-> rfc4334_Types,
  rfc4357 |-> rfc4357_Types,
  rfc4387 |-> rfc4387_Types,
  rfc4476 |-> rfc4476_Types,
  rfc4490 |-> rfc4490_Types,
  rfc4491 |-> rfc4491_Types,
  rfc4683 |-> rfc4683_Types,
  rfc4985 |-> rfc4985_Types,
  rfc5035 |-> rfc5035_Types,
  rfc5083 |-> rfc5083_Types,
  rfc5084 |-> rfc5084_Types,
  rfc5126 |-> rfc5126_Types,
  rfc5208 |-> rfc5208_Types,
  rfc5275 |-> rfc5275_Types,
  rfc5280 |-> rfc5280_Types,
  rfc5480 |-> rfc5480_Types,
  rfc5636 |-> rfc5636_Types,
  rfc5639 |-> rfc5639_Types,
  rfc5649 |-> rfc5649_Types,
  rfc5652 |-> rfc5652_Types,
  rfc5697 |-> rfc5697_Types,
  rfc5751 |-> rfc5751_Types,
  rfc5752 |-> rfc5752_Types,
  rfc5753 |-> rfc5753_Types,
  rfc5755 |-> rfc5755_Types,
  rfc5913 |-> rfc5913_Types,
  rfc5914 |-> rfc5914_Types,
  rfc5915 |-> rfc5915_Types,
  rfc5916 |-> rfc5916_Types,
  rfc5917 |-> rfc5917_Types,
  rfc5924 |-> rfc5924_Types,
  rfc5934 |-> rfc5934_Types,
  rfc5940 |-> rfc5940_Types,
  rfc5958 |-> rfc5958_Types,
  rfc5990 |-> rfc5990_Types,
  rfc6010 |-> rfc6010_Types,
  rfc6019 |-> rfc6019_Types,
  rfc6031 |-> rfc6031_Types,
  rfc6032 |-> rfc6032_Types,
  rfc6120 |-> rfc6120_Types,
  rfc6170 |-> rfc6170_Types,
  rfc6187 |-> rfc6187_Types,
  rfc6210 |-> rfc6210_Types,
  rfc6211 |-> rfc6211_Types,
  rfc6402 |-> rfc6402_Types,
  rfc6482 |-> rfc6482_Types,
  rfc6486 |-> rfc6486_Types,
  rfc6487 |-> rfc6487_Types,
  rfc6664 |-> rfc6664_Types,
  rfc6955 |-> rfc6955_Types,
  rfc6960 |-> rfc6960_Types,
  rfc7030 |-> rfc7030_Types,
  rfc7191 |-> rfc7191_Types,
  rfc7229 |-> rfc7229_Types,
  rfc7292 |-> rfc7292_Types,
  rfc7296 |-> rfc7296_Types,
  rfc7508 |-> rfc7508_Types,
  rfc7585 |-> rfc7585_Types,
  rfc7633 |-> rfc7633_Types,
  rfc7773 |-> rfc7773_Types,
  rfc7894 |-> rfc7894_Types,
  rfc7906 |-> rfc7906_Types,
  rfc7914 |-> rfc7914_Types,
  rfc8017 |-> rfc8017_Types,
  rfc8018 |-> rfc8018_Types,
  rfc8103 |-> rfc8103_Types,
  rfc8209 |-> rfc8209_Types,
  rfc8226 |-> rfc8226_Types,
  rfc8358 |-> rfc8358_Types,
  rfc8360 |-> rfc8360_Types,
  rfc8398 |-> rfc8398_Types,
  rfc8410 |-> rfc8410_Types,
  rfc8418 |-> rfc8418_Types,
  rfc8419 |-> rfc8419_Types,
  rfc8479 |-> rfc8479_Types,
  rfc8494 |-> rfc8494_Types,
  rfc8520 |-> rfc8520_Types,
  rfc8619 |-> rfc8619_Types,
  rfc8649 |-> rfc8649_Types,
  rfc8692 |-> rfc8692_Types,
  rfc8696 |-> rfc8696_Types,
  rfc8702 |-> rfc8702_Types,
  rfc8708 |-> rfc8708_Types,
  rfc8769 |-> rfc8769_Types]

ValueTab == [
  rfc1155 |-> rfc1155_Values,
  rfc1157 |-> rfc1157_Values,
  rfc1901 |-> rfc1901_Values,
  rfc1902 |-> rfc1902_Values,
  rfc1905 |-> rfc1905_Values,
  rfc2251 |-> rfc2251_Values,
  rfc2314 |-> rfc2314_Values,
  rfc2315 |-> rfc2315_Values,
  rfc2437 |-> rfc2437_Values,
  rfc2459 |-> rfc2459_Values,
  rfc2511 |-> rfc2511_Values,
  rfc2560 |-> rfc2560_Values,
  rfc2631 |-> rfc2631_Values,
  rfc2634 |-> rfc2634_Values,
  rfc2876 |-> rfc2876_Values,
  rfc2985 |-> rfc2985_Values,
  rfc2986 |-> rfc2986_Values,
  rfc3058 |-> rfc3058_Values,
  rfc3114 |-> rfc3114_Values,
  rfc3125 |-> rfc3125_Values,
  rfc3161 |-> rfc3161_Values,
  rfc3274 |-> rfc3274_Values,
  rfc3279 |-> rfc3279_Values,
  rfc3280 |-> rfc3280_Values,
  rfc3281 |-> rfc3281_Values,
  rfc3370 |-> rfc3370_Values,
  rfc3412 |-> rfc3412_Values,
  rfc3414 |-> rfc3414_Values,
  rfc3447 |-> rfc3447_Values,
  rfc3537 |-> rfc3537_Values,
  rfc3560 |-> rfc3560_Values,
  rfc3565 |-> rfc3565_Values,
  rfc3657 |-> rfc3657_Values,
  rfc3709 |-> rfc3709_Values,
  rfc3739 |-> rfc3739_Values,
  rfc3770 |-> rfc3770_Values,
  rfc3779 |-> rfc3779_Values,
  rfc3820 |-> rfc3820_Values,
  rfc3852 |-> rfc3852_Values,
  rfc4010 |-> rfc4010_Values,
  rfc4043 |-> rfc4043_Values,
  rfc4055 |-> rfc4055_Values,
  rfc4073 |-> rfc4073_Values,
  rfc4108 |-> rfc4108_Values,
  rfc4210 |-> rfc4210_Values,
  rfc4211 |-> rfc4211_Values,
  rfc4334 |-> rfc4334_Values,
  rfc4357 |-> rfc4357_Values,
  rfc4387 |-> rfc4387_Values,
  rfc4476 |-> rfc4476_Values,
  rfc4490 |-> rfc4490_Values,
  rfc4491 |-> rfc4491_Values,
  rfc4683 |-> rfc4683_Values,
  rfc4985 |-> rfc4985_Values,
  rfc5035 |-> rfc5035_Values,
  rfc5083 |-> rfc5083_Values,
  rfc5084 |-> rfc5084_Values,
  rfc5126 |-> rfc5126_Values,
  rfc5208 |-> rfc5208_Values,
  rfc5275 |-> rfc5275_Values,
  rfc5280 |-> rfc5280_Values,
  rfc5480 |-> rfc5480_Values,
  rfc5636 |-> rfc5636_Values,
  rfc5639 |-> rfc5639_Values,
  rfc5649 |-> rfc5649_Values,
  rfc5652 |-> rfc5652_Values,
  rfc5697 |-> rfc5697_Values,
  rfc5751 |-> rfc5751_Values,
  rfc5752 |-> rfc5752_Values,
  rfc5753 |-> rfc5753_Values,
  rfc5755 |-> rfc5755_Values,
  rfc5913 |-> rfc5913_Values,
  rfc5914 |-> rfc5914_Values,
  rfc5915 |-> rfc5915_Values,
  rfc5916 |-> rfc5916_Values,
  rfc5917 |-> rfc5917_Values,
  rfc5924 |-> rfc5924_Values,
  rfc5934 |-> rfc5934_Values,
  rfc5940 |-> rfc5940_Values,
  rfc5958 |-> rfc5958_Values,
  rfc5990 |-> rfc5990_Values,
  rfc6010 |-> rfc6010_Values,
  rfc6019 |-> rfc6019_Values,
  rfc6031 |-> rfc6031_Values,
  rfc6032 |-> rfc6032_Values,
  rfc6120 |-> rfc6120_Values,
  rfc6170 |-> rfc6170_Values,
  rfc6187 |-> rfc6187_Values,
  rfc6210 |-> rfc6210_Values,
  rfc6211 |-> rfc6211_Values,
  rfc6402 |-> rfc6402_Values,
  rfc6482 |-> rfc6482_Values,
  rfc6486 |-> rfc6486_Values,
  rfc6487 |-> rfc6487_Values,
  rfc6664 |-> rfc6664_Values,
  rfc6955 |-> rfc6955_Values,
  rfc6960 |-> rfc6960_Values,
  rfc7030 |-> rfc7030_Values,
  rfc7191 |-> rfc7191_Values,
  rfc7229 |-> rfc7229_Values,
  rfc7292 |-> rfc7292_Values,
  rfc7296 |-> rfc7296_Values,
  rfc7508 |-> rfc7508_Values,
  rfc7585 |-> rfc7585_Values,
  rfc7633 |-> rfc7633_Values,
  rfc7773 |-> rfc7773_Values,
  rfc7894 |-> rfc7894_Values,
  rfc7906 |-> rfc7906_Values,
  rfc7914 |-> rfc7914_Values,
  rfc8017 |-> rfc8017_Values,
  rfc8018 |-> rfc8018_Values,
  rfc8103 |-> rfc8103_Values,
  rfc8209 |-> rfc8209_Values,
  rfc8226 |-> rfc8226_Values,
  rfc8358 |-> rfc8358_Values,
  rfc8360 |-> rfc8360_Values,
  rfc8398 |-> rfc8398_Values,
  rfc8410 |-> rfc8410_Values,
  rfc8418 |-> rfc8418_Values,
  rfc8419 |-> rfc8419_Values,
  rfc8479 |-> rfc8479_Values,
  rfc8494 |-> rfc8494_Values,
  rfc8520 |-> rfc8520_Values,
  rfc8619 |-> rfc8619_Values,
  rfc8649 |-> rfc8649_Values,
  rfc8692 |-> rfc8692_Values,
  rfc8696 |-> rfc8696_Values,
  rfc8702 |-> rfc8702_Values,
  rfc8708 |-> rfc8708_Values,
  rfc8769 |-> rfc8769_Values]

ImportTab == [
  rfc1155 |-> rfc1155_Imports,
  rfc1157 |-> rfc1157_Imports,
  rfc1901 |-> rfc1901_Imports,
  rfc1902 |-> rfc1902_Imports,
  rfc1905 |-> rfc1905_Imports,
  rfc2251 |-> rfc2251_Imports,
  rfc2314 |-> rfc2314_Imports,
  rfc2315 |-> rfc2315_Imports,
  rfc2437 |-> rfc2437_Imports,
  rfc2459 |-> rfc2459_Imports,
  rfc2511 |-> rfc2511_Imports,
  rfc2560 |-> rfc2560_Imports,
  rfc2631 |-> rfc2631_Imports,
  rfc2634 |-> rfc2634_Imports,
  rfc2876 |-> rfc2876_Imports,
  rfc2985 |-> rfc2985_Imports,
  rfc2986 |-> rfc2986_Imports,
  rfc3058 |-> rfc3058_Imports,
  rfc3114 |-> rfc3114_Imports,
  rfc3125 |-> rfc3125_Imports,
  rfc3161 |-> rfc3161_Imports,
  rfc3274 |-> rfc3274_Imports,
  rfc3279 |-> rfc3279_Imports,
  rfc3280 |-> rfc3280_Imports,
  rfc3281 |-> rfc3281_Imports,
  rfc3370 |-> rfc3370_Imports,
  rfc3412 |-> rfc3412_Imports,
  rfc3414 |-> rfc3414_Imports,
  rfc3447 |-> rfc3447_Imports,
  rfc3537 |-> rfc3537_Imports,
  rfc3560 |-> rfc3560_Imports,
  rfc3565 |-> rfc3565_Imports,
  rfc3657 |-> rfc3657_Imports,
  rfc3709 |-> rfc3709_Imports,
  rfc3739 |-> rfc3739_Imports,
  rfc3770 |-> rfc3770_Imports,
  rfc3779 |-> rfc3779_Imports,
  rfc3820 |-> rfc3820_Imports,
  rfc3852 |-> rfc3852_Imports,
  rfc4010 |-> rfc4010_Imports,
  rfc4043 |-> rfc4043_Imports,
  rfc4055 |-> rfc4055_Imports,
  rfc4073 |-> rfc4073_Imports,
  rfc4108 |-> rfc4108_Imports,
  rfc4210 |-> rfc4210_Imports,
  rfc4211 |-> rfc4211_Imports,
  rfc4334 |-> rfc4334_Imports,
  rfc4357 |-> rfc4357_Imports,
  rfc4387 |-> rfc4387_Imports,
  rfc4476 |-> rfc4476_Imports,
  rfc4490 |-> rfc4490_Imports,
  rfc4491 |-> rfc4491_Imports,
  rfc4683 |-> rfc4683_Imports,
  rfc4985 |-> rfc4985_Imports,
  rfc5035 |-> rfc5035_Imports,
  rfc5083 |-> rfc5083_Imports,
  rfc5084 |-> rfc5084_Imports,
  rfc5126 |-> rfc5126_Imports,
  rfc5208 |-> rfc5208_Imports,
  rfc5275 |-> rfc5275_Imports,
  rfc5280 |-> rfc5280_Imports,
  rfc5480 |-> rfc5480_Imports,
  rfc5636 |-> rfc5636_Imports,
  rfc5639 |-> rfc5639_Imports,
  rfc5649 |-> rfc5649_Imports,
  rfc5652 |-> rfc5652_Imports,
  rfc5697 |-> rfc5697_Imports,
  rfc5751 |-> rfc5751_Imports,
  rfc5752 |-> rfc5752_Imports,
  rfc5753 |-> rfc5753_Imports,
  rfc5755 |-> rfc5755_Imports,
  rfc5913 |-> rfc5913_Imports,
  rfc5914 |-> rfc5914_Imports,
  rfc5915 |-> rfc5915_Imports,
  rfc5916 |-> rfc5916_Imports,
  rfc5917 |-> rfc5917_Imports,
  rfc5924 |-> rfc5924_Imports,
  rfc5934 |-> rfc5934_Imports,
  rfc5940 |-> rfc5940_Imports,
  rfc5958 |-> rfc5958_Imports,
  rfc5990 |-> rfc5990_Imports,
  rfc6010 |-> rfc6010_Imports,
  rfc6019 |-> rfc6019_Imports,
  rfc6031 |-> rfc6031_Imports,
  rfc6032 |-> rfc6032_Imports,
  rfc6120 |-> rfc6120_Imports,
  rfc6170 |-> rfc6170_Imports,
  rfc6187 |-> rfc6187_Imports,
  rfc6210 |-> rfc6210_Imports,
  rfc6211 |-> rfc6211_Imports,
  rfc6402 |-> rfc6402_Imports,
  rfc6482 |-> rfc6482_Imports,
  rfc6486 |-> rfc6486_Imports,
  rfc6487 |-> rfc6487_Imports,
  rfc6664 |-> rfc6664_Imports,
  rfc6955 |-> rfc6955_Imports,
  rfc6960 |-> rfc6960_Imports,
  rfc7030 |-> rfc7030_Imports,
  rfc7191 |-> rfc7191_Imports,
  rfc7229 |-> rfc7229_Imports,
  rfc7292 |-> rfc7292_Imports,
  rfc7296 |-> rfc7296_Imports,
  rfc7508 |-> rfc7508_Imports,
  rfc7585 |-> rfc7585_Imports,
  rfc7633 |-> rfc7633_Imports,
  rfc7773 |-> rfc7773_Imports,
  rfc7894 |-> rfc7894_Imports,
  rfc7906 |-> rfc7906_Imports,
  rfc7914 |-> rfc7914_Imports,
  rfc8017 |-> rfc8017_Imports,
  rfc8018 |-> rfc8018_Imports,
  rfc8103 |-> rfc8103_Imports,
  rfc8209 |-> rfc8209_Imports,
  rfc8226 |-> rfc8226_Imports,
  rfc8358 |-> rfc8358_Imports,
  rfc8360 |-> rfc8360_Imports,
  rfc8398 |-> rfc8398_Imports,
  rfc8410 |-> rfc8410_Imports,
  rfc8418 |-> rfc8418_Imports,
  rfc8419 |-> rfc8419_Imports,
  rfc8479 |-> rfc8479_Imports,
  rfc8494 |-> rfc8494_Imports,
  rfc8520 |-> rfc8520_Imports,
  rfc8619 |-> rfc8619_Imports,
  rfc8649 |-> rfc8649_Imports,
  rfc8692 |-> rfc8692_Imports,
  rfc8696 |-> rfc8696_Imports,
  rfc8702 |-> rfc8702_Imports,
  rfc8708 |-> rfc8708_Imports,
  rfc8769 |-> rfc8769_Imports]

StarTab == [
  rfc1155 |-> rfc1155_StarImports,
  rfc1157 |-> rfc1157_StarImports,
  rfc1901 |-> rfc1901_StarImports,
  rfc1902 |-> rfc1902_StarImports,
  rfc1905 |-> rfc1905_StarImports,
  rfc2251 |-> rfc2251_StarImports,
  rfc2314 |-> rfc2314_StarImports,
  rfc2315 |-> rfc2315_StarImports,
  rfc2437 |-> rfc2437_StarImports,
  rfc2459 |-> rfc2459_StarImports,
  rfc2511 |-> rfc2511_StarImports,
  rfc2560 |-> rfc2560_StarImports,
  rfc2631 |-> rfc2631_StarImports,
  rfc2634 |-> rfc2634_StarImports,
  rfc2876 |-> rfc2876_StarImports,
  rfc2985 |-> rfc2985_StarImports,
  rfc2986 |-> rfc2986_StarImports,
  rfc3058 |-> rfc3058_StarImports,
  rfc3114 |-> rfc3114_StarImports,
  rfc3125 |-> rfc3125_StarImports,
  rfc3161 |-> rfc3161_StarImports,
  rfc3274 |-> rfc3274_StarImports,
  rfc3279 |-> rfc3279_StarImports,
  rfc3280 |-> rfc3280_StarImports,
  rfc3281 |-> rfc3281_StarImports,
  rfc3370 |-> rfc3370_StarImports,
  rfc3412 |-> rfc3412_StarImports,
  rfc3414 |-> rfc3414_StarImports,
  rfc3447 |-> rfc3447_StarImports,
  rfc3537 |-> rfc3537_StarImports,
  rfc3560 |-> rfc3560_StarImports,
  rfc3565 |-> rfc3565_StarImports,
  rfc3657 |-> rfc3657_StarImports,
  rfc3709 |-> rfc3709_StarImports,
  rfc3739 |-> rfc3739_StarImports,
  rfc3770 |-> rfc3770_StarImports,
  rfc3779 |-> rfc3779_StarImports,
  rfc3820 |-> rfc3820_StarImports,
  rfc3852 |-> rfc3852_StarImports,
  rfc4010 |-> rfc4010_StarImports,
  rfc4043 |-> rfc4043_StarImports,
  rfc4055 |-> rfc4055_StarImports,
  rfc4073 |-> rfc4073_StarImports,
  rfc4108 |-> rfc4108_StarImports,
  rfc4210 |-> rfc4210_StarImports,
  rfc4211 |-> rfc4211_StarImports,
  rfc4334 |-> rfc4334_StarImports,
  rfc4357 |-> rfc4357_StarImports,
  rfc4387 |-> rfc4387_StarImports,
  rfc4476 |-> rfc4476_StarImports,
  rfc4490 |-> rfc4490_StarImports,
  rfc4491 |-> rfc4491_StarImports,
  rfc4683 |-> rfc4683_StarImports,
  rfc4985 |-> rfc4985_StarImports,
  rfc5035 |-> rfc5035_StarImports,
  rfc5083 |-> rfc5083_StarImports,
  rfc5084 |-> rfc5084_StarImports,
  rfc5126 |-> rfc5126_StarImports,
  rfc5208 |-> rfc5208_StarImports,
  rfc5275 |-> rfc5275_StarImports,
  rfc5280 |-> rfc5280_StarImports,
  rfc5480 |-> rfc5480_StarImports,
  rfc5636 |-> rfc5636_StarImports,
  rfc5639 |-> rfc5639_StarImports,
  rfc5649 |-> rfc5649_StarImports,
  rfc5652 |-> rfc5652_StarImports,
  rfc5697 |-> rfc5697_StarImports,
  rfc5751 |-> rfc5751_StarImports,
  rfc5752 |-> rfc5752_StarImports,
  rfc5753 |-> rfc5753_StarImports,
  rfc5755 |-> rfc5755_StarImports,
  rfc5913 |-> rfc5913_StarImports,
  rfc5914 |-> rfc5914_StarImports,
  rfc5915 |-> rfc5915_StarImports,
  rfc5916 |-> rfc5916_StarImports,
  rfc5917 |-> rfc5917_StarImports,
  rfc5924 |-> rfc5924_StarImports,
  rfc5934 |-> rfc5934_StarImports,
  rfc5940 |-> rfc5940_StarImports,
  rfc5958 |-> rfc5958_StarImports,
  rfc5990 |-> rfc5990_StarImports,
  rfc6010 |-> rfc6010_StarImports,
  rfc6019 |-> rfc6019_StarImports,
  rfc6031 |-> rfc6031_StarImports,
  rfc6032 |-> rfc6032_StarImports,
  rfc6120 |-> rfc6120_StarImports,
  rfc6170 |-> rfc6170_StarImports,
  rfc6187 |-> rfc6187_StarImports,
  rfc6210 |-> rfc6210_StarImports,
  rfc6211 |-> rfc6211_StarImports,
  rfc6402 |-> rfc6402_StarImports,
  rfc6482 |-> rfc6482_StarImports,
  rfc6486 |-> rfc6486_StarImports,
  rfc6487 |-> rfc6487_StarImports,
  rfc6664 |-> rfc6664_StarImports,
  rfc6955 |-> rfc6955_StarImports,
  rfc6960 |-> rfc6960_StarImports,
  rfc7030 |-> rfc7030_StarImports,
  rfc7191 |-> rfc7191_StarImports,
  rfc7229 |-> rfc7229_StarImports,
  rfc7292 |-> rfc7292_StarImports,
  rfc7296 |-> rfc7296_StarImports,
  rfc7508 |-> rfc7508_StarImports,
  rfc7585 |-> rfc7585_StarImports,
  rfc7633 |-> rfc7633_StarImports,
  rfc7773 |-> rfc7773_StarImports,
  rfc7894 |-> rfc7894_StarImports,
  rfc7906 |-> rfc7906_StarImports,
  rfc7914 |-> rfc7914_StarImports,
  rfc8017 |-> rfc8017_StarImports,
  rfc8018 |-> rfc8018_StarImports,
  rfc8103 |-> rfc8103_StarImports,
  rfc8209 |-> rfc8209_StarImports,
  rfc8226 |-> rfc8226_StarImports,
  rfc8358 |-> rfc8358_StarImports,
  rfc8360 |-> rfc8360_StarImports,
  rfc8398 |-> rfc8398_StarImports,
  rfc8410 |-> rfc8410_StarImports,
  rfc8418 |-> rfc8418_StarImports,
  rfc8419 |-> rfc8419_StarImports,
  rfc8479 |-> rfc8479_StarImports,
  rfc8494 |-> rfc8494_StarImports,
  rfc8520 |-> rfc8520_StarImports,
  rfc8619 |-> rfc8619_StarImports,
  rfc8649 |-> rfc8649_StarImports,
  rfc8692 |-> rfc8692_StarImports,
  rfc8696 |-> rfc8696_StarImports,
  rfc8702 |-> rfc8702_StarImports,
  rfc8708 |-> rfc8708_StarImports,
  rfc8769 |-> rfc8769_StarImports]

TableTab == [
  rfc1155 |-> rfc1155_Tables,
  rfc1157 |-> rfc1157_Tables,
  rfc1901 |-> rfc1901_Tables,
  rfc1902 |-> rfc1902_Tables,
  rfc1905 |-> rfc1905_Tables,
  rfc2251 |-> rfc2251_Tables,
  rfc2314 |-> rfc2314_Tables,
  rfc2315 |-> rfc2315_Tables,
  rfc2437 |-> rfc2437_Tables,
  rfc2459 |-> rfc2459_Tables,
  rfc2511 |-> rfc2511_Tables,
  rfc2560 |-> rfc2560_Tables,
  rfc2631 |-> rfc2631_Tables,
  rfc2634 |-> rfc2634_Tables,
  rfc2876 |-> rfc2876_Tables,
  rfc2985 |-> rfc2985_Tables,
  rfc2986 |-> rfc2986_Tables,
  rfc3058 |-> rfc3058_Tables,
  rfc3114 |-> rfc3114_Tables,
  rfc3125 |-> rfc3125_Tables,
  rfc3161 |-> rfc3161_Tables,
  rfc3274 |-> rfc3274_Tables,
  rfc3279 |-> rfc3279_Tables,
  rfc3280 |-> rfc3280_Tables,
  rfc3281 |-> rfc3281_Tables,
  rfc3370 |-> rfc3370_Tables,
  rfc3412 |-> rfc3412_Tables,
  rfc3414 |-> rfc3414_Tables,
  rfc3447 |-> rfc3447_Tables,
  rfc3537 |-> rfc3537_Tables,
  rfc3560 |-> rfc3560_Tables,
  rfc3565 |-> rfc3565_Tables,
  rfc3657 |-> rfc3657_Tables,
  rfc3709 |-> rfc3709_Tables,
  rfc3739 |-> rfc3739_Tables,
  rfc3770 |-> rfc3770_Tables,
  rfc3779 |-> rfc3779_Tables,
  rfc3820 |-> rfc3820_Tables,
  rfc3852 |-> rfc3852_Tables,
  rfc4010 |-> rfc4010_Tables,
  rfc4043 |-> rfc4043_Tables,
  rfc4055 |-> rfc4055_Tables,
  rfc4073 |-> rfc4073_Tables,
  rfc4108 |-> rfc4108_Tables,
  rfc4210 |-> rfc4210_Tables,
  rfc4211 |-> rfc4211_Tables,
  rfc4334 |-> rfc4334_Tables,
  rfc4357 |-> rfc4357_Tables,
  rfc4387 |-> rfc4387_Tables,
  rfc4476 |-> rfc4476_Tables,
  rfc4490 |-> rfc4490_Tables,
  rfc4491 |-> rfc4491_Tables,
  rfc4683 |-> rfc4683_Tables,
  rfc4985 |-> rfc4985_Tables,
  rfc5035 |-> rfc5035_Tables,
  rfc5083 |-> rfc5083_Tables,
  rfc5084 |-> rfc5084_Tables,
  rfc5126 |-> rfc5126_Tables,
  rfc5208 |-> rfc5208_Tables,
  rfc5275 |-> rfc5275_Tables,
  rfc5280 |-> rfc5280_Tables,
  rfc5480 |-> rfc5480_Tables,
  rfc5636 |-> rfc5636_Tables,
  rfc5639 |-> rfc5639_Tables,
  rfc5649 |-> rfc5649_Tables,
  rfc5652 |-> rfc5652_Tables,
  rfc5697 |-> rfc5697_Tables,
  rfc5751 |-> rfc5751_Tables,
  rfc5752 |-> rfc5752_Tables,
  rfc5753 |-> rfc5753_Tables,
  rfc5755 |-> rfc5755_Tables,
  rfc5913 |-> rfc5913_Tables,
  rfc5914 |-> rfc5914_Tables,
  rfc5915 |-> rfc5915_Tables,
  rfc5916 |-> rfc5916_Tables,
  rfc5917 |-> rfc5917_Tables,
  rfc5924 |-> rfc5924_Tables,
  rfc5934 |-> rfc5934_Tables,
  rfc5940 |-> rfc5940_Tables,
  rfc5958 |-> rfc5958_Tables,
  rfc5990 |-> rfc5990_Tables,
  rfc6010 |-> rfc6010_Tables,
  rfc6019 |-> rfc6019_Tables,
  rfc6031 |-> rfc6031_Tables,
  rfc6032 |-> rfc6032_Tables,
  rfc6120 |-> rfc6120_Tables,
  rfc6170 |-> rfc6170_Tables,
  rfc6187 |-> rfc6187_Tables,
  rfc6210 |-> rfc6210_Tables,
  rfc6211 |-> rfc6211_Tables,
  rfc6402 |-> rfc6402_Tables,
  rfc6482 |-> rfc6482_Tables,
  rfc6486 |-> rfc6486_Tables,
  rfc6487 |-> rfc6487_Tables,
  rfc6664 |-> rfc6664_Tables,
  rfc6955 |-> rfc6955_Tables,
  rfc6960 |-> rfc6960_Tables,
  rfc7030 |-> rfc7030_Tables,
  rfc7191 |-> rfc7191_Tables,
  rfc7229 |-> rfc7229_Tables,
  rfc7292 |-> rfc7292_Tables,
  rfc7296 |-> rfc7296_Tables,
  rfc7508 |-> rfc7508_Tables,
  rfc7585 |-> rfc7585_Tables,
  rfc7633 |-> rfc7633_Tables,
  rfc7773 |-> rfc7773_Tables,
  rfc7894 |-> rfc7894_Tables,
  rfc7906 |-> rfc7906_Tables,
  rfc7914 |-> rfc7914_Tables,
  rfc8017 |-> rfc8017_Tables,
  rfc8018 |-> rfc8018_Tables,
  rfc8103 |-> rfc8103_Tables,
  rfc8209 |-> rfc8209_Tables,
  rfc8226 |-> rfc8226_Tables,
  rfc8358 |-> rfc8358_Tables,
  rfc8360 |-> rfc8360_Tables,
  rfc8398 |-> rfc8398_Tables,
  rfc8410 |-> rfc8410_Tables,
  rfc8418 |-> rfc8418_Tables,
  rfc8419 |-> rfc8419_Tables,
  rfc8479 |-> rfc8479_Tables,
  rfc8494 |-> rfc8494_Tables,
  rfc8520 |-> rfc8520_Tables,
  rfc8619 |-> rfc8619_Tables,
  rfc8649 |-> rfc8649_Tables,
  rfc8692 |-> rfc8692_Tables,
  rfc8696 |-> rfc8696_Tables,
  rfc8702 |-> rfc8702_Tables,
  rfc8708 |-> rfc8708_Tables,
  rfc8769 |-> rfc8769_Tables]

EntryTab == [
  rfc1155 |-> rfc1155_Entries,
  rfc1157 |-> rfc1157_Entries,
  rfc1901 |-> rfc1901_Entries,
  rfc1902 |-> rfc1902_Entries,
  rfc1905 |-> rfc1905_Entries,
  rfc2251 |-> rfc2251_Entries,
  rfc2314 |-> rfc2314_Entries,
  rfc2315 |-> rfc2315_Entries,
  rfc2437 |-> rfc2437_Entries,
  rfc2459 |-> rfc2459_Entries,
  rfc2511 |-> rfc2511_Entries,
  rfc2560 |-> rfc2560_Entries,
  rfc2631 |-> rfc2631_Entries,
  rfc2634 |-> rfc2634_Entries,
  rfc2876 |-> rfc2876_Entries,
  rfc2985 |-> rfc2985_Entries,
  rfc2986 |-> rfc2986_Entries,
  rfc3058 |-> rfc3058_Entries,
  rfc3114 |-> rfc3114_Entries,
  rfc3125 |-> rfc3125_Entries,
  rfc3161 |-> rfc3161_Entries,
  rfc3274 |-> rfc3274_Entries,
  rfc3279 |-> rfc3279_Entries,
  rfc3280 |-> rfc3280_Entries,
  rfc3281 |-> rfc3281_Entries,
  rfc3370 |-> rfc3370_Entries,
  rfc3412 |-> rfc3412_Entries,
  rfc3414 |-> rfc3414_Entries,
  rfc3447 |-> rfc3447_Entries,
  rfc3537 |-> rfc3537_Entries,
  rfc3560 |-> rfc3560_Entries,
  rfc3565 |-> rfc3565_Entries,
  rfc3657 |-> rfc3657_Entries,
  rfc3709 |-> rfc3709_Entries,
  rfc3739 |-> rfc3739_Entries,
  rfc3770 |-> rfc3770_Entries,
  rfc3779 |-> rfc3779_Entries,
  rfc3820 |-> rfc3820_Entries,
  rfc3852 |-> rfc3852_Entries,
  rfc4010 |-> rfc4010_Entries,
  rfc4043 |-> rfc4043_Entries,
  rfc4055 |-> rfc4055_Entries,
  rfc4073 |-> rfc4073_Entries,
  rfc4108 |-> rfc4108_Entries,
  rfc4210 |-> rfc4210_Entries,
  rfc4211 |-> rfc4211_Entries,
  rfc4334 |-> rfc4334_Entries,
  rfc4357 |-> rfc4357_Entries,
  rfc4387 |-> rfc4387_Entries,
  rfc4476 |-> rfc4476_Entries,
  rfc4490 |-> rfc4490_Entries,
  rfc4491 |-> rfc4491_Entries,
  rfc4683 |-> rfc4683_Entries,
  rfc4985 |-> rfc4985_Entries,
  rfc5035 |-> rfc5035_Entries,
  rfc5083 |-> rfc5083_Entries,
  rfc5084 |-> rfc5084_Entries,
  rfc5126 |-> rfc5126_Entries,
  rfc5208 |-> rfc5208_Entries,
  rfc5275 |-> rfc5275_Entries,
  rfc5280 |-> rfc5280_Entries,
  rfc5480 |-> rfc5480_Entries,
  rfc5636 |-> rfc5636_Entries,
  rfc5639 |-> rfc5639_Entries,
  rfc5649 |-> rfc5649_Entries,
  rfc5652 |-> rfc5652_Entries,
  rfc5697 |-> rfc5697_Entries,
  rfc5751 |-> rfc5751_Entries,
  rfc5752 |-> rfc5752_Entries,
  rfc5753 |-> rfc5753_Entries,
  rfc5755 |-> rfc5755_Entries,
  rfc5913 |-> rfc5913_Entries,
  rfc5914 |-> rfc5914_Entries,
  rfc5915 |-> rfc5915_Entries,
  rfc5916 |-> rfc5916_Entries,
  rfc5917 |-> rfc5917_Entries,
  rfc5924 |-> rfc5924_Entries,
  rfc5934 |-> rfc5934_Entries,
  rfc5940 |-> rfc5940_Entries,
  rfc5958 |-> rfc5958_Entries,
  rfc5990 |-> rfc5990_Entries,
  rfc6010 |-> rfc6010_Entries,
  rfc6019 |-> rfc6019_Entries,
  rfc6031 |-> rfc6031_Entries,
  rfc6032 |-> rfc6032_Entries,
  rfc6120 |-> rfc6120_Entries,
  rfc6170 |-> rfc6170_Entries,
  rfc6187 |-> rfc6187_Entries,
  rfc6210 |-> rfc6210_Entries,
  rfc6211 |-> rfc6211_Entries,
  rfc6402 |-> rfc6402_Entries,
  rfc6482 |-> rfc6482_Entries,
  rfc6486 |-> rfc6486_Entries,
  rfc6487 |-> rfc6487_Entries,
  rfc6664 |-> rfc6664_Entries,
  rfc6955 |-> rfc6955_Entries,
  rfc6960 |-> rfc6960_Entries,
  rfc7030 |-> rfc7030_Entries,
  rfc7191 |-> rfc7191_Entries,
  rfc7229 |-> rfc7229_Entries,
  rfc7292 |-> rfc7292_Entries,
  rfc7296 |-> rfc7296_Entries,
  rfc7508 |-> rfc7508_Entries,
  rfc7585 |-> rfc7585_Entries,
  rfc7633 |-> rfc7633_Entries,
  rfc7773 |-> rfc7773_Entries,
  rfc7894 |-> rfc7894_Entries,
  rfc7906 |-> rfc7906_Entries,
  rfc7914 |-> rfc7914_Entries,
  rfc8017 |-> rfc8017_Entries,
  rfc8018 |-> rfc8018_Entries,
  rfc8103 |-> rfc8103_Entries,
  rfc8209 |-> rfc8209_Entries,
  rfc8226 |-> rfc8226_Entries,
  rfc8358 |-> rfc8358_Entries,
  rfc8360 |-> rfc8360_Entries,
  rfc8398 |-> rfc8398_Entries,
  rfc8410 |-> rfc8410_Entries,
  rfc8418 |-> rfc8418_Entries,
  rfc8419 |-> rfc8419_Entries,
  rfc8479 |-> rfc8479_Entries,
  rfc8494 |-> rfc8494_Entries,
  rfc8520 |-> rfc8520_Entries,
  rfc8619 |-> rfc8619_Entries,
  rfc8649 |-> rfc8649_Entries,
  rfc8692 |-> rfc8692_Entries,
  rfc8696 |-> rfc8696_Entries,
  rfc8702 |-> rfc8702_Entries,
  rfc8708 |-> rfc8708_Entries,
  rfc8769 |-> rfc8769_Entries]
===========================================================================
