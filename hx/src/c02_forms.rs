// Generated by gen_c02.py from data/inst_table.tsv. One obligation per instruction form.
#![allow(unused_variables)]
use crate::dec::*;
use crate::regs::*;
use kit::*;
use xten::asm::*;

kit::obligation!(r000, kani, unwind = 9, |s| {
        r000_0(s);
        r000_1(s);
        r000_2(s);
        r000_3(s);
        r000_4(s);
        r000_5(s);
        r000_6(s);
        r000_7(s);
        r000_8(s);
        r000_9(s);
        r000_10(s);
        r000_11(s);
});
kit::obligation!(r001, kani, unwind = 9, |s| {
        r001_0(s);
        r001_1(s);
        r001_2(s);
        r001_3(s);
        r001_4(s);
        r001_5(s);
        r001_6(s);
        r001_7(s);
        r001_8(s);
        r001_9(s);
        r001_10(s);
        r001_11(s);
});
kit::obligation!(r002, kani, unwind = 9, |s| {
        r002_0(s);
        r002_1(s);
        r002_2(s);
        r002_3(s);
        r002_4(s);
        r002_5(s);
        r002_6(s);
        r002_7(s);
        r002_8(s);
        r002_9(s);
        r002_10(s);
        r002_11(s);
});
kit::obligation!(r003, kani, unwind = 9, |s| {
        r003_0(s);
        r003_1(s);
        r003_2(s);
        r003_3(s);
        r003_4(s);
        r003_5(s);
        r003_6(s);
        r003_7(s);
        r003_8(s);
        r003_9(s);
        r003_10(s);
        r003_11(s);
});
kit::obligation!(r004, kani, unwind = 9, |s| {
        r004_0(s);
        r004_1(s);
        r004_2(s);
        r004_3(s);
        r004_4(s);
        r004_5(s);
        r004_6(s);
        r004_7(s);
        r004_8(s);
        r004_9(s);
        r004_10(s);
        r004_11(s);
});
kit::obligation!(r005, kani, unwind = 9, |s| {
        r005_0(s);
        r005_1(s);
        r005_2(s);
        r005_3(s);
        r005_4(s);
        r005_5(s);
        r005_6(s);
        r005_7(s);
        r005_8(s);
        r005_9(s);
        r005_10(s);
        r005_11(s);
});
kit::obligation!(r006, kani, unwind = 9, |s| {
        r006_0(s);
        r006_1(s);
        r006_2(s);
        r006_3(s);
        r006_4(s);
        r006_5(s);
        r006_6(s);
        r006_7(s);
        r006_8(s);
        r006_9(s);
        r006_10(s);
        r006_11(s);
});
kit::obligation!(r007, kani, unwind = 9, |s| {
        r007_0(s);
        r007_1(s);
        r007_2(s);
        r007_3(s);
        r007_4(s);
        r007_5(s);
        r007_6(s);
        r007_7(s);
        r007_8(s);
        r007_9(s);
        r007_10(s);
        r007_11(s);
});
kit::obligation!(r008, kani, unwind = 9, |s| {
        r008_0(s);
        r008_1(s);
        r008_2(s);
        r008_3(s);
        r008_4(s);
        r008_5(s);
        r008_6(s);
        r008_7(s);
        r008_8(s);
        r008_9(s);
        r008_10(s);
        r008_11(s);
});
kit::obligation!(r009, kani, unwind = 9, |s| {
        r009_0(s);
        r009_1(s);
        r009_2(s);
        r009_3(s);
        r009_4(s);
        r009_5(s);
        r009_6(s);
        r009_7(s);
        r009_8(s);
        r009_9(s);
        r009_10(s);
        r009_11(s);
});
kit::obligation!(r010, kani, unwind = 9, |s| {
        r010_0(s);
        r010_1(s);
        r010_2(s);
        r010_3(s);
        r010_4(s);
        r010_5(s);
        r010_6(s);
        r010_7(s);
        r010_8(s);
        r010_9(s);
        r010_10(s);
        r010_11(s);
});
kit::obligation!(r011, kani, unwind = 9, |s| {
        r011_0(s);
        r011_1(s);
        r011_2(s);
        r011_3(s);
        r011_4(s);
        r011_5(s);
        r011_6(s);
        r011_7(s);
        r011_8(s);
        r011_9(s);
        r011_10(s);
        r011_11(s);
});
kit::obligation!(r012, kani, unwind = 9, |s| {
        r012_0(s);
        r012_1(s);
        r012_2(s);
        r012_3(s);
        r012_4(s);
        r012_5(s);
        r012_6(s);
        r012_7(s);
        r012_8(s);
        r012_9(s);
        r012_10(s);
        r012_11(s);
});
kit::obligation!(r013, kani, unwind = 9, |s| {
        r013_0(s);
        r013_1(s);
        r013_2(s);
        r013_3(s);
        r013_4(s);
        r013_5(s);
        r013_6(s);
        r013_7(s);
        r013_8(s);
        r013_9(s);
        r013_10(s);
        r013_11(s);
});
kit::obligation!(r014, kani, unwind = 9, |s| {
        r014_0(s);
        r014_1(s);
        r014_2(s);
        r014_3(s);
        r014_4(s);
        r014_5(s);
        r014_6(s);
        r014_7(s);
        r014_8(s);
        r014_9(s);
        r014_10(s);
        r014_11(s);
});
kit::obligation!(r015, kani, unwind = 9, |s| {
        r015_0(s);
        r015_1(s);
        r015_2(s);
        r015_3(s);
        r015_4(s);
        r015_5(s);
        r015_6(s);
        r015_7(s);
        r015_8(s);
        r015_9(s);
        r015_10(s);
        r015_11(s);
});
kit::obligation!(r016, kani, unwind = 9, |s| {
        r016_0(s);
        r016_1(s);
        r016_2(s);
        r016_3(s);
        r016_4(s);
        r016_5(s);
        r016_6(s);
        r016_7(s);
        r016_8(s);
        r016_9(s);
        r016_10(s);
        r016_11(s);
});
kit::obligation!(r017, kani, unwind = 9, |s| {
        r017_0(s);
        r017_1(s);
        r017_2(s);
        r017_3(s);
        r017_4(s);
        r017_5(s);
        r017_6(s);
        r017_7(s);
        r017_8(s);
        r017_9(s);
        r017_10(s);
        r017_11(s);
});
kit::obligation!(r018, kani, unwind = 9, |s| {
        r018_0(s);
        r018_1(s);
        r018_2(s);
        r018_3(s);
        r018_4(s);
        r018_5(s);
        r018_6(s);
        r018_7(s);
        r018_8(s);
        r018_9(s);
        r018_10(s);
        r018_11(s);
});
kit::obligation!(r019, kani, unwind = 9, |s| {
        r019_0(s);
        r019_1(s);
        r019_2(s);
        r019_3(s);
        r019_4(s);
        r019_5(s);
        r019_6(s);
        r019_7(s);
        r019_8(s);
        r019_9(s);
        r019_10(s);
        r019_11(s);
});
kit::obligation!(r020, kani, unwind = 9, |s| {
        r020_0(s);
        r020_1(s);
        r020_2(s);
        r020_3(s);
        r020_4(s);
        r020_5(s);
        r020_6(s);
        r020_7(s);
        r020_8(s);
        r020_9(s);
        r020_10(s);
        r020_11(s);
});
kit::obligation!(r021, kani, unwind = 9, |s| {
        r021_0(s);
        r021_1(s);
        r021_2(s);
        r021_3(s);
        r021_4(s);
        r021_5(s);
        r021_6(s);
        r021_7(s);
        r021_8(s);
        r021_9(s);
        r021_10(s);
        r021_11(s);
});
kit::obligation!(r022, kani, unwind = 9, |s| {
        r022_0(s);
        r022_1(s);
        r022_2(s);
        r022_3(s);
        r022_4(s);
        r022_5(s);
        r022_6(s);
        r022_7(s);
        r022_8(s);
        r022_9(s);
        r022_10(s);
        r022_11(s);
});
kit::obligation!(r023, kani, unwind = 9, |s| {
        r023_0(s);
        r023_1(s);
        r023_2(s);
        r023_3(s);
        r023_4(s);
        r023_5(s);
        r023_6(s);
        r023_7(s);
        r023_8(s);
        r023_9(s);
        r023_10(s);
        r023_11(s);
});
kit::obligation!(r024, kani, unwind = 9, |s| {
        r024_0(s);
        r024_1(s);
        r024_2(s);
        r024_3(s);
        r024_4(s);
        r024_5(s);
        r024_6(s);
        r024_7(s);
        r024_8(s);
        r024_9(s);
        r024_10(s);
        r024_11(s);
});
kit::obligation!(r025, kani, unwind = 9, |s| {
        r025_0(s);
        r025_1(s);
        r025_2(s);
        r025_3(s);
        r025_4(s);
        r025_5(s);
        r025_6(s);
        r025_7(s);
        r025_8(s);
        r025_9(s);
        r025_10(s);
        r025_11(s);
});
kit::obligation!(r026, kani, unwind = 9, |s| {
        r026_0(s);
        r026_1(s);
        r026_2(s);
        r026_3(s);
        r026_4(s);
        r026_5(s);
        r026_6(s);
        r026_7(s);
        r026_8(s);
        r026_9(s);
        r026_10(s);
        r026_11(s);
});
kit::obligation!(r027, kani, unwind = 9, |s| {
        r027_0(s);
        r027_1(s);
        r027_2(s);
        r027_3(s);
        r027_4(s);
        r027_5(s);
        r027_6(s);
        r027_7(s);
        r027_8(s);
        r027_9(s);
        r027_10(s);
        r027_11(s);
});
kit::obligation!(r028, kani, unwind = 9, |s| {
        r028_0(s);
        r028_1(s);
        r028_2(s);
        r028_3(s);
        r028_4(s);
        r028_5(s);
        r028_6(s);
        r028_7(s);
        r028_8(s);
        r028_9(s);
        r028_10(s);
        r028_11(s);
});
kit::obligation!(r029, kani, unwind = 9, |s| {
        r029_0(s);
        r029_1(s);
        r029_2(s);
        r029_3(s);
        r029_4(s);
        r029_5(s);
        r029_6(s);
        r029_7(s);
        r029_8(s);
        r029_9(s);
        r029_10(s);
        r029_11(s);
});
kit::obligation!(r030, kani, unwind = 9, |s| {
        r030_0(s);
        r030_1(s);
        r030_2(s);
        r030_3(s);
        r030_4(s);
        r030_5(s);
        r030_6(s);
        r030_7(s);
        r030_8(s);
        r030_9(s);
        r030_10(s);
        r030_11(s);
});
kit::obligation!(r031, kani, unwind = 9, |s| {
        r031_0(s);
        r031_1(s);
        r031_2(s);
        r031_3(s);
        r031_4(s);
        r031_5(s);
        r031_6(s);
        r031_7(s);
        r031_8(s);
        r031_9(s);
        r031_10(s);
        r031_11(s);
});
kit::obligation!(r032, kani, unwind = 9, |s| {
        r032_0(s);
        r032_1(s);
        r032_2(s);
        r032_3(s);
        r032_4(s);
        r032_5(s);
        r032_6(s);
        r032_7(s);
        r032_8(s);
        r032_9(s);
        r032_10(s);
        r032_11(s);
});
kit::obligation!(r033, kani, unwind = 9, |s| {
        r033_0(s);
        r033_1(s);
        r033_2(s);
        r033_3(s);
        r033_4(s);
        r033_5(s);
        r033_6(s);
        r033_7(s);
        r033_8(s);
        r033_9(s);
        r033_10(s);
        r033_11(s);
});
kit::obligation!(r034, kani, unwind = 9, |s| {
        r034_0(s);
        r034_1(s);
        r034_2(s);
        r034_3(s);
        r034_4(s);
        r034_5(s);
        r034_6(s);
        r034_7(s);
        r034_8(s);
        r034_9(s);
        r034_10(s);
        r034_11(s);
});
kit::obligation!(r035, kani, unwind = 9, |s| {
        r035_0(s);
        r035_1(s);
        r035_2(s);
        r035_3(s);
        r035_4(s);
        r035_5(s);
        r035_6(s);
        r035_7(s);
        r035_8(s);
        r035_9(s);
        r035_10(s);
        r035_11(s);
});
kit::obligation!(r036, kani, unwind = 9, |s| {
        r036_0(s);
        r036_1(s);
        r036_2(s);
        r036_3(s);
        r036_4(s);
        r036_5(s);
        r036_6(s);
        r036_7(s);
        r036_8(s);
        r036_9(s);
        r036_10(s);
        r036_11(s);
});
kit::obligation!(r037, kani, unwind = 9, |s| {
        r037_0(s);
        r037_1(s);
        r037_2(s);
        r037_3(s);
        r037_4(s);
        r037_5(s);
        r037_6(s);
        r037_7(s);
        r037_8(s);
        r037_9(s);
        r037_10(s);
        r037_11(s);
});
kit::obligation!(r038, kani, unwind = 9, |s| {
        r038_0(s);
        r038_1(s);
        r038_2(s);
        r038_3(s);
        r038_4(s);
        r038_5(s);
        r038_6(s);
        r038_7(s);
        r038_8(s);
        r038_9(s);
        r038_10(s);
        r038_11(s);
});
kit::obligation!(r039, kani, unwind = 9, |s| {
        r039_0(s);
        r039_1(s);
        r039_2(s);
        r039_3(s);
        r039_4(s);
        r039_5(s);
        r039_6(s);
        r039_7(s);
        r039_8(s);
        r039_9(s);
        r039_10(s);
        r039_11(s);
});
kit::obligation!(r040, kani, unwind = 9, |s| {
        r040_0(s);
        r040_1(s);
        r040_2(s);
        r040_3(s);
        r040_4(s);
        r040_5(s);
        r040_6(s);
        r040_7(s);
        r040_8(s);
        r040_9(s);
        r040_10(s);
        r040_11(s);
});
kit::obligation!(r041, kani, unwind = 9, |s| {
        r041_0(s);
        r041_1(s);
        r041_2(s);
        r041_3(s);
        r041_4(s);
        r041_5(s);
        r041_6(s);
        r041_7(s);
        r041_8(s);
        r041_9(s);
        r041_10(s);
        r041_11(s);
});
kit::obligation!(r042, kani, unwind = 9, |s| {
        r042_0(s);
        r042_1(s);
        r042_2(s);
        r042_3(s);
        r042_4(s);
        r042_5(s);
        r042_6(s);
        r042_7(s);
        r042_8(s);
        r042_9(s);
        r042_10(s);
        r042_11(s);
});
kit::obligation!(r043, kani, unwind = 9, |s| {
        r043_0(s);
        r043_1(s);
        r043_2(s);
        r043_3(s);
        r043_4(s);
        r043_5(s);
        r043_6(s);
        r043_7(s);
        r043_8(s);
        r043_9(s);
        r043_10(s);
        r043_11(s);
});
kit::obligation!(r044, kani, unwind = 9, |s| {
        r044_0(s);
        r044_1(s);
        r044_2(s);
        r044_3(s);
        r044_4(s);
        r044_5(s);
        r044_6(s);
        r044_7(s);
        r044_8(s);
        r044_9(s);
        r044_10(s);
        r044_11(s);
});
kit::obligation!(r045, kani, unwind = 9, |s| {
        r045_0(s);
        r045_1(s);
        r045_2(s);
        r045_3(s);
        r045_4(s);
        r045_5(s);
        r045_6(s);
        r045_7(s);
        r045_8(s);
        r045_9(s);
        r045_10(s);
        r045_11(s);
});
kit::obligation!(r046, kani, unwind = 9, |s| {
        r046_0(s);
        r046_1(s);
        r046_2(s);
        r046_3(s);
        r046_4(s);
        r046_5(s);
        r046_6(s);
        r046_7(s);
        r046_8(s);
        r046_9(s);
        r046_10(s);
        r046_11(s);
});
kit::obligation!(r047, kani, unwind = 9, |s| {
        r047_0(s);
        r047_1(s);
        r047_2(s);
        r047_3(s);
        r047_4(s);
        r047_5(s);
        r047_6(s);
        r047_7(s);
        r047_8(s);
        r047_9(s);
        r047_10(s);
        r047_11(s);
});
kit::obligation!(r048, kani, unwind = 9, |s| {
        r048_0(s);
        r048_1(s);
        r048_2(s);
        r048_3(s);
        r048_4(s);
        r048_5(s);
        r048_6(s);
        r048_7(s);
        r048_8(s);
        r048_9(s);
        r048_10(s);
        r048_11(s);
});
kit::obligation!(r049, kani, unwind = 9, |s| {
        r049_0(s);
        r049_1(s);
        r049_2(s);
        r049_3(s);
        r049_4(s);
        r049_5(s);
        r049_6(s);
        r049_7(s);
        r049_8(s);
        r049_9(s);
        r049_10(s);
        r049_11(s);
});
kit::obligation!(r050, kani, unwind = 9, |s| {
        r050_0(s);
        r050_1(s);
        r050_2(s);
        r050_3(s);
        r050_4(s);
        r050_5(s);
        r050_6(s);
        r050_7(s);
        r050_8(s);
        r050_9(s);
        r050_10(s);
        r050_11(s);
});
kit::obligation!(r051, kani, unwind = 9, |s| {
        r051_0(s);
        r051_1(s);
        r051_2(s);
        r051_3(s);
        r051_4(s);
        r051_5(s);
        r051_6(s);
        r051_7(s);
        r051_8(s);
        r051_9(s);
        r051_10(s);
        r051_11(s);
});
kit::obligation!(r052, kani, unwind = 9, |s| {
        r052_0(s);
        r052_1(s);
        r052_2(s);
        r052_3(s);
        r052_4(s);
        r052_5(s);
        r052_6(s);
        r052_7(s);
        r052_8(s);
        r052_9(s);
        r052_10(s);
        r052_11(s);
});
kit::obligation!(r053, kani, unwind = 9, |s| {
        r053_0(s);
        r053_1(s);
        r053_2(s);
        r053_3(s);
        r053_4(s);
        r053_5(s);
        r053_6(s);
        r053_7(s);
        r053_8(s);
        r053_9(s);
        r053_10(s);
        r053_11(s);
});
kit::obligation!(r054, kani, unwind = 9, |s| {
        r054_0(s);
        r054_1(s);
        r054_2(s);
        r054_3(s);
        r054_4(s);
        r054_5(s);
        r054_6(s);
        r054_7(s);
        r054_8(s);
        r054_9(s);
        r054_10(s);
        r054_11(s);
});
kit::obligation!(r055, kani, unwind = 9, |s| {
        r055_0(s);
        r055_1(s);
        r055_2(s);
        r055_3(s);
        r055_4(s);
        r055_5(s);
        r055_6(s);
        r055_7(s);
        r055_8(s);
        r055_9(s);
        r055_10(s);
        r055_11(s);
});
kit::obligation!(r056, kani, unwind = 9, |s| {
        r056_0(s);
        r056_1(s);
        r056_2(s);
        r056_3(s);
        r056_4(s);
        r056_5(s);
        r056_6(s);
        r056_7(s);
        r056_8(s);
        r056_9(s);
        r056_10(s);
        r056_11(s);
});
kit::obligation!(r057, kani, unwind = 9, |s| {
        r057_0(s);
        r057_1(s);
        r057_2(s);
        r057_3(s);
        r057_4(s);
        r057_5(s);
        r057_6(s);
        r057_7(s);
        r057_8(s);
        r057_9(s);
        r057_10(s);
        r057_11(s);
});
kit::obligation!(r058, kani, unwind = 9, |s| {
        r058_0(s);
        r058_1(s);
        r058_2(s);
        r058_3(s);
        r058_4(s);
        r058_5(s);
        r058_6(s);
        r058_7(s);
        r058_8(s);
        r058_9(s);
        r058_10(s);
        r058_11(s);
});
kit::obligation!(r059, kani, unwind = 9, |s| {
        r059_0(s);
        r059_1(s);
        r059_2(s);
        r059_3(s);
        r059_4(s);
        r059_5(s);
        r059_6(s);
        r059_7(s);
        r059_8(s);
        r059_9(s);
        r059_10(s);
        r059_11(s);
});
kit::obligation!(r060, kani, unwind = 9, |s| {
        r060_0(s);
        r060_1(s);
        r060_2(s);
        r060_3(s);
        r060_4(s);
        r060_5(s);
        r060_6(s);
        r060_7(s);
        r060_8(s);
        r060_9(s);
        r060_10(s);
        r060_11(s);
});
kit::obligation!(r061, kani, unwind = 9, |s| {
        r061_0(s);
        r061_1(s);
        r061_2(s);
        r061_3(s);
        r061_4(s);
        r061_5(s);
        r061_6(s);
        r061_7(s);
        r061_8(s);
});
kit::obligation!(m000, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m000_0(s, mp, me);
        m000_1(s, mp, me);
        m000_2(s, mp, me);
        m000_3(s, mp, me);
        m000_4(s, mp, me);
        m000_5(s, mp, me);
});
kit::obligation!(m001, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m001_0(s, mp, me);
        m001_1(s, mp, me);
        m001_2(s, mp, me);
        m001_3(s, mp, me);
        m001_4(s, mp, me);
        m001_5(s, mp, me);
});
kit::obligation!(m002, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m002_0(s, mp, me);
        m002_1(s, mp, me);
        m002_2(s, mp, me);
        m002_3(s, mp, me);
        m002_4(s, mp, me);
        m002_5(s, mp, me);
});
kit::obligation!(m003, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m003_0(s, mp, me);
        m003_1(s, mp, me);
        m003_2(s, mp, me);
        m003_3(s, mp, me);
        m003_4(s, mp, me);
        m003_5(s, mp, me);
});
kit::obligation!(m004, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m004_0(s, mp, me);
        m004_1(s, mp, me);
        m004_2(s, mp, me);
        m004_3(s, mp, me);
        m004_4(s, mp, me);
        m004_5(s, mp, me);
});
kit::obligation!(m005, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m005_0(s, mp, me);
        m005_1(s, mp, me);
        m005_2(s, mp, me);
        m005_3(s, mp, me);
        m005_4(s, mp, me);
        m005_5(s, mp, me);
});
kit::obligation!(m006, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m006_0(s, mp, me);
        m006_1(s, mp, me);
        m006_2(s, mp, me);
        m006_3(s, mp, me);
        m006_4(s, mp, me);
        m006_5(s, mp, me);
});
kit::obligation!(m007, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m007_0(s, mp, me);
        m007_1(s, mp, me);
        m007_2(s, mp, me);
        m007_3(s, mp, me);
        m007_4(s, mp, me);
        m007_5(s, mp, me);
});
kit::obligation!(m008, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m008_0(s, mp, me);
        m008_1(s, mp, me);
        m008_2(s, mp, me);
        m008_3(s, mp, me);
        m008_4(s, mp, me);
        m008_5(s, mp, me);
});
kit::obligation!(m009, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m009_0(s, mp, me);
        m009_1(s, mp, me);
        m009_2(s, mp, me);
        m009_3(s, mp, me);
        m009_4(s, mp, me);
        m009_5(s, mp, me);
});
kit::obligation!(m010, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m010_0(s, mp, me);
        m010_1(s, mp, me);
        m010_2(s, mp, me);
        m010_3(s, mp, me);
        m010_4(s, mp, me);
        m010_5(s, mp, me);
});
kit::obligation!(m011, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m011_0(s, mp, me);
        m011_1(s, mp, me);
        m011_2(s, mp, me);
        m011_3(s, mp, me);
        m011_4(s, mp, me);
        m011_5(s, mp, me);
});
kit::obligation!(m012, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m012_0(s, mp, me);
        m012_1(s, mp, me);
        m012_2(s, mp, me);
        m012_3(s, mp, me);
        m012_4(s, mp, me);
        m012_5(s, mp, me);
});
kit::obligation!(m013, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m013_0(s, mp, me);
        m013_1(s, mp, me);
        m013_2(s, mp, me);
        m013_3(s, mp, me);
        m013_4(s, mp, me);
        m013_5(s, mp, me);
});
kit::obligation!(m014, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m014_0(s, mp, me);
        m014_1(s, mp, me);
        m014_2(s, mp, me);
        m014_3(s, mp, me);
        m014_4(s, mp, me);
        m014_5(s, mp, me);
});
kit::obligation!(m015, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m015_0(s, mp, me);
        m015_1(s, mp, me);
        m015_2(s, mp, me);
        m015_3(s, mp, me);
        m015_4(s, mp, me);
        m015_5(s, mp, me);
});
kit::obligation!(m016, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m016_0(s, mp, me);
        m016_1(s, mp, me);
        m016_2(s, mp, me);
        m016_3(s, mp, me);
        m016_4(s, mp, me);
        m016_5(s, mp, me);
});
kit::obligation!(m017, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m017_0(s, mp, me);
        m017_1(s, mp, me);
        m017_2(s, mp, me);
        m017_3(s, mp, me);
        m017_4(s, mp, me);
        m017_5(s, mp, me);
});
kit::obligation!(m018, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m018_0(s, mp, me);
        m018_1(s, mp, me);
        m018_2(s, mp, me);
        m018_3(s, mp, me);
        m018_4(s, mp, me);
        m018_5(s, mp, me);
});
kit::obligation!(m019, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m019_0(s, mp, me);
        m019_1(s, mp, me);
        m019_2(s, mp, me);
        m019_3(s, mp, me);
        m019_4(s, mp, me);
        m019_5(s, mp, me);
});
kit::obligation!(m020, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m020_0(s, mp, me);
        m020_1(s, mp, me);
        m020_2(s, mp, me);
        m020_3(s, mp, me);
        m020_4(s, mp, me);
        m020_5(s, mp, me);
});
kit::obligation!(m021, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m021_0(s, mp, me);
        m021_1(s, mp, me);
        m021_2(s, mp, me);
        m021_3(s, mp, me);
        m021_4(s, mp, me);
        m021_5(s, mp, me);
});
kit::obligation!(m022, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m022_0(s, mp, me);
        m022_1(s, mp, me);
        m022_2(s, mp, me);
        m022_3(s, mp, me);
        m022_4(s, mp, me);
        m022_5(s, mp, me);
});
kit::obligation!(m023, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m023_0(s, mp, me);
        m023_1(s, mp, me);
        m023_2(s, mp, me);
        m023_3(s, mp, me);
        m023_4(s, mp, me);
        m023_5(s, mp, me);
});
kit::obligation!(m024, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m024_0(s, mp, me);
        m024_1(s, mp, me);
        m024_2(s, mp, me);
        m024_3(s, mp, me);
        m024_4(s, mp, me);
        m024_5(s, mp, me);
});
kit::obligation!(m025, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m025_0(s, mp, me);
        m025_1(s, mp, me);
        m025_2(s, mp, me);
        m025_3(s, mp, me);
        m025_4(s, mp, me);
        m025_5(s, mp, me);
});
kit::obligation!(m026, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m026_0(s, mp, me);
        m026_1(s, mp, me);
        m026_2(s, mp, me);
        m026_3(s, mp, me);
        m026_4(s, mp, me);
        m026_5(s, mp, me);
});
kit::obligation!(m027, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m027_0(s, mp, me);
        m027_1(s, mp, me);
        m027_2(s, mp, me);
        m027_3(s, mp, me);
        m027_4(s, mp, me);
        m027_5(s, mp, me);
});
kit::obligation!(m028, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m028_0(s, mp, me);
        m028_1(s, mp, me);
        m028_2(s, mp, me);
        m028_3(s, mp, me);
        m028_4(s, mp, me);
        m028_5(s, mp, me);
});
kit::obligation!(m029, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m029_0(s, mp, me);
        m029_1(s, mp, me);
        m029_2(s, mp, me);
        m029_3(s, mp, me);
        m029_4(s, mp, me);
        m029_5(s, mp, me);
});
kit::obligation!(m030, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m030_0(s, mp, me);
        m030_1(s, mp, me);
        m030_2(s, mp, me);
        m030_3(s, mp, me);
        m030_4(s, mp, me);
        m030_5(s, mp, me);
});
kit::obligation!(m031, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m031_0(s, mp, me);
        m031_1(s, mp, me);
        m031_2(s, mp, me);
        m031_3(s, mp, me);
        m031_4(s, mp, me);
        m031_5(s, mp, me);
});
kit::obligation!(m032, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m032_0(s, mp, me);
        m032_1(s, mp, me);
        m032_2(s, mp, me);
        m032_3(s, mp, me);
        m032_4(s, mp, me);
        m032_5(s, mp, me);
});
kit::obligation!(m033, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m033_0(s, mp, me);
        m033_1(s, mp, me);
        m033_2(s, mp, me);
        m033_3(s, mp, me);
        m033_4(s, mp, me);
        m033_5(s, mp, me);
});
kit::obligation!(m034, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m034_0(s, mp, me);
        m034_1(s, mp, me);
        m034_2(s, mp, me);
        m034_3(s, mp, me);
        m034_4(s, mp, me);
        m034_5(s, mp, me);
});
kit::obligation!(m035, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m035_0(s, mp, me);
        m035_1(s, mp, me);
        m035_2(s, mp, me);
        m035_3(s, mp, me);
        m035_4(s, mp, me);
        m035_5(s, mp, me);
});
kit::obligation!(m036, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m036_0(s, mp, me);
        m036_1(s, mp, me);
        m036_2(s, mp, me);
        m036_3(s, mp, me);
        m036_4(s, mp, me);
        m036_5(s, mp, me);
});
kit::obligation!(m037, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m037_0(s, mp, me);
        m037_1(s, mp, me);
        m037_2(s, mp, me);
        m037_3(s, mp, me);
        m037_4(s, mp, me);
        m037_5(s, mp, me);
});
kit::obligation!(m038, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m038_0(s, mp, me);
        m038_1(s, mp, me);
        m038_2(s, mp, me);
        m038_3(s, mp, me);
        m038_4(s, mp, me);
        m038_5(s, mp, me);
});
kit::obligation!(m039, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m039_0(s, mp, me);
        m039_1(s, mp, me);
        m039_2(s, mp, me);
        m039_3(s, mp, me);
        m039_4(s, mp, me);
        m039_5(s, mp, me);
});
kit::obligation!(m040, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m040_0(s, mp, me);
        m040_1(s, mp, me);
        m040_2(s, mp, me);
        m040_3(s, mp, me);
        m040_4(s, mp, me);
        m040_5(s, mp, me);
});
kit::obligation!(m041, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m041_0(s, mp, me);
        m041_1(s, mp, me);
        m041_2(s, mp, me);
        m041_3(s, mp, me);
        m041_4(s, mp, me);
        m041_5(s, mp, me);
});
kit::obligation!(m042, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m042_0(s, mp, me);
        m042_1(s, mp, me);
        m042_2(s, mp, me);
        m042_3(s, mp, me);
        m042_4(s, mp, me);
        m042_5(s, mp, me);
});
kit::obligation!(m043, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m043_0(s, mp, me);
        m043_1(s, mp, me);
        m043_2(s, mp, me);
        m043_3(s, mp, me);
        m043_4(s, mp, me);
        m043_5(s, mp, me);
});
kit::obligation!(m044, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m044_0(s, mp, me);
        m044_1(s, mp, me);
        m044_2(s, mp, me);
        m044_3(s, mp, me);
        m044_4(s, mp, me);
        m044_5(s, mp, me);
});
kit::obligation!(m045, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m045_0(s, mp, me);
        m045_1(s, mp, me);
        m045_2(s, mp, me);
        m045_3(s, mp, me);
        m045_4(s, mp, me);
        m045_5(s, mp, me);
});
kit::obligation!(m046, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m046_0(s, mp, me);
        m046_1(s, mp, me);
        m046_2(s, mp, me);
        m046_3(s, mp, me);
        m046_4(s, mp, me);
        m046_5(s, mp, me);
});
kit::obligation!(m047, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m047_0(s, mp, me);
        m047_1(s, mp, me);
        m047_2(s, mp, me);
        m047_3(s, mp, me);
        m047_4(s, mp, me);
        m047_5(s, mp, me);
});
kit::obligation!(m048, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m048_0(s, mp, me);
        m048_1(s, mp, me);
        m048_2(s, mp, me);
        m048_3(s, mp, me);
        m048_4(s, mp, me);
        m048_5(s, mp, me);
});
kit::obligation!(m049, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m049_0(s, mp, me);
        m049_1(s, mp, me);
        m049_2(s, mp, me);
        m049_3(s, mp, me);
        m049_4(s, mp, me);
        m049_5(s, mp, me);
});
kit::obligation!(m050, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m050_0(s, mp, me);
        m050_1(s, mp, me);
        m050_2(s, mp, me);
        m050_3(s, mp, me);
        m050_4(s, mp, me);
        m050_5(s, mp, me);
});
kit::obligation!(m051, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m051_0(s, mp, me);
        m051_1(s, mp, me);
        m051_2(s, mp, me);
        m051_3(s, mp, me);
        m051_4(s, mp, me);
        m051_5(s, mp, me);
});
kit::obligation!(m052, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m052_0(s, mp, me);
        m052_1(s, mp, me);
        m052_2(s, mp, me);
        m052_3(s, mp, me);
        m052_4(s, mp, me);
        m052_5(s, mp, me);
});
kit::obligation!(m053, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m053_0(s, mp, me);
        m053_1(s, mp, me);
        m053_2(s, mp, me);
        m053_3(s, mp, me);
        m053_4(s, mp, me);
        m053_5(s, mp, me);
});
kit::obligation!(m054, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m054_0(s, mp, me);
        m054_1(s, mp, me);
        m054_2(s, mp, me);
        m054_3(s, mp, me);
        m054_4(s, mp, me);
        m054_5(s, mp, me);
});
kit::obligation!(m055, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m055_0(s, mp, me);
        m055_1(s, mp, me);
        m055_2(s, mp, me);
        m055_3(s, mp, me);
        m055_4(s, mp, me);
        m055_5(s, mp, me);
});
kit::obligation!(m056, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m056_0(s, mp, me);
        m056_1(s, mp, me);
        m056_2(s, mp, me);
        m056_3(s, mp, me);
        m056_4(s, mp, me);
        m056_5(s, mp, me);
});
kit::obligation!(m057, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m057_0(s, mp, me);
        m057_1(s, mp, me);
        m057_2(s, mp, me);
        m057_3(s, mp, me);
        m057_4(s, mp, me);
        m057_5(s, mp, me);
});
kit::obligation!(m058, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m058_0(s, mp, me);
        m058_1(s, mp, me);
        m058_2(s, mp, me);
        m058_3(s, mp, me);
        m058_4(s, mp, me);
        m058_5(s, mp, me);
});
kit::obligation!(m059, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m059_0(s, mp, me);
        m059_1(s, mp, me);
        m059_2(s, mp, me);
        m059_3(s, mp, me);
        m059_4(s, mp, me);
        m059_5(s, mp, me);
});
kit::obligation!(m060, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m060_0(s, mp, me);
        m060_1(s, mp, me);
        m060_2(s, mp, me);
        m060_3(s, mp, me);
        m060_4(s, mp, me);
        m060_5(s, mp, me);
});
kit::obligation!(m061, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m061_0(s, mp, me);
        m061_1(s, mp, me);
        m061_2(s, mp, me);
        m061_3(s, mp, me);
        m061_4(s, mp, me);
        m061_5(s, mp, me);
});
kit::obligation!(m062, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m062_0(s, mp, me);
        m062_1(s, mp, me);
        m062_2(s, mp, me);
        m062_3(s, mp, me);
        m062_4(s, mp, me);
        m062_5(s, mp, me);
});
kit::obligation!(m063, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m063_0(s, mp, me);
        m063_1(s, mp, me);
        m063_2(s, mp, me);
        m063_3(s, mp, me);
        m063_4(s, mp, me);
        m063_5(s, mp, me);
});
kit::obligation!(m064, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m064_0(s, mp, me);
        m064_1(s, mp, me);
        m064_2(s, mp, me);
        m064_3(s, mp, me);
        m064_4(s, mp, me);
        m064_5(s, mp, me);
});
kit::obligation!(m065, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m065_0(s, mp, me);
        m065_1(s, mp, me);
        m065_2(s, mp, me);
        m065_3(s, mp, me);
        m065_4(s, mp, me);
        m065_5(s, mp, me);
});
kit::obligation!(m066, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m066_0(s, mp, me);
        m066_1(s, mp, me);
        m066_2(s, mp, me);
        m066_3(s, mp, me);
        m066_4(s, mp, me);
        m066_5(s, mp, me);
});
kit::obligation!(m067, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m067_0(s, mp, me);
        m067_1(s, mp, me);
        m067_2(s, mp, me);
        m067_3(s, mp, me);
        m067_4(s, mp, me);
        m067_5(s, mp, me);
});
kit::obligation!(m068, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m068_0(s, mp, me);
        m068_1(s, mp, me);
        m068_2(s, mp, me);
        m068_3(s, mp, me);
        m068_4(s, mp, me);
        m068_5(s, mp, me);
});
kit::obligation!(m069, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m069_0(s, mp, me);
        m069_1(s, mp, me);
        m069_2(s, mp, me);
        m069_3(s, mp, me);
        m069_4(s, mp, me);
        m069_5(s, mp, me);
});
kit::obligation!(m070, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m070_0(s, mp, me);
        m070_1(s, mp, me);
        m070_2(s, mp, me);
        m070_3(s, mp, me);
        m070_4(s, mp, me);
        m070_5(s, mp, me);
});
kit::obligation!(m071, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m071_0(s, mp, me);
        m071_1(s, mp, me);
        m071_2(s, mp, me);
        m071_3(s, mp, me);
        m071_4(s, mp, me);
        m071_5(s, mp, me);
});
kit::obligation!(m072, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m072_0(s, mp, me);
        m072_1(s, mp, me);
        m072_2(s, mp, me);
        m072_3(s, mp, me);
        m072_4(s, mp, me);
        m072_5(s, mp, me);
});
kit::obligation!(m073, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m073_0(s, mp, me);
        m073_1(s, mp, me);
        m073_2(s, mp, me);
        m073_3(s, mp, me);
        m073_4(s, mp, me);
        m073_5(s, mp, me);
});
kit::obligation!(m074, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m074_0(s, mp, me);
        m074_1(s, mp, me);
        m074_2(s, mp, me);
        m074_3(s, mp, me);
        m074_4(s, mp, me);
        m074_5(s, mp, me);
});
kit::obligation!(m075, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m075_0(s, mp, me);
        m075_1(s, mp, me);
        m075_2(s, mp, me);
        m075_3(s, mp, me);
        m075_4(s, mp, me);
        m075_5(s, mp, me);
});
kit::obligation!(m076, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m076_0(s, mp, me);
        m076_1(s, mp, me);
        m076_2(s, mp, me);
        m076_3(s, mp, me);
        m076_4(s, mp, me);
        m076_5(s, mp, me);
});
kit::obligation!(m077, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m077_0(s, mp, me);
        m077_1(s, mp, me);
        m077_2(s, mp, me);
        m077_3(s, mp, me);
        m077_4(s, mp, me);
        m077_5(s, mp, me);
});
kit::obligation!(m078, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m078_0(s, mp, me);
        m078_1(s, mp, me);
        m078_2(s, mp, me);
        m078_3(s, mp, me);
        m078_4(s, mp, me);
        m078_5(s, mp, me);
});
kit::obligation!(m079, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m079_0(s, mp, me);
        m079_1(s, mp, me);
        m079_2(s, mp, me);
        m079_3(s, mp, me);
        m079_4(s, mp, me);
        m079_5(s, mp, me);
});
kit::obligation!(m080, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m080_0(s, mp, me);
        m080_1(s, mp, me);
        m080_2(s, mp, me);
        m080_3(s, mp, me);
        m080_4(s, mp, me);
        m080_5(s, mp, me);
});
kit::obligation!(m081, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m081_0(s, mp, me);
        m081_1(s, mp, me);
        m081_2(s, mp, me);
        m081_3(s, mp, me);
        m081_4(s, mp, me);
        m081_5(s, mp, me);
});
kit::obligation!(m082, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m082_0(s, mp, me);
        m082_1(s, mp, me);
        m082_2(s, mp, me);
        m082_3(s, mp, me);
        m082_4(s, mp, me);
        m082_5(s, mp, me);
});
kit::obligation!(m083, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m083_0(s, mp, me);
        m083_1(s, mp, me);
        m083_2(s, mp, me);
        m083_3(s, mp, me);
        m083_4(s, mp, me);
        m083_5(s, mp, me);
});
kit::obligation!(m084, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m084_0(s, mp, me);
        m084_1(s, mp, me);
        m084_2(s, mp, me);
        m084_3(s, mp, me);
        m084_4(s, mp, me);
        m084_5(s, mp, me);
});
kit::obligation!(m085, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m085_0(s, mp, me);
        m085_1(s, mp, me);
        m085_2(s, mp, me);
        m085_3(s, mp, me);
        m085_4(s, mp, me);
        m085_5(s, mp, me);
});
kit::obligation!(m086, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m086_0(s, mp, me);
        m086_1(s, mp, me);
        m086_2(s, mp, me);
        m086_3(s, mp, me);
        m086_4(s, mp, me);
        m086_5(s, mp, me);
});
kit::obligation!(m087, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m087_0(s, mp, me);
        m087_1(s, mp, me);
        m087_2(s, mp, me);
        m087_3(s, mp, me);
        m087_4(s, mp, me);
        m087_5(s, mp, me);
});
kit::obligation!(m088, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m088_0(s, mp, me);
        m088_1(s, mp, me);
        m088_2(s, mp, me);
        m088_3(s, mp, me);
        m088_4(s, mp, me);
        m088_5(s, mp, me);
});
kit::obligation!(m089, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m089_0(s, mp, me);
        m089_1(s, mp, me);
        m089_2(s, mp, me);
        m089_3(s, mp, me);
        m089_4(s, mp, me);
        m089_5(s, mp, me);
});
kit::obligation!(m090, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m090_0(s, mp, me);
        m090_1(s, mp, me);
        m090_2(s, mp, me);
        m090_3(s, mp, me);
        m090_4(s, mp, me);
        m090_5(s, mp, me);
});
kit::obligation!(m091, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m091_0(s, mp, me);
        m091_1(s, mp, me);
        m091_2(s, mp, me);
        m091_3(s, mp, me);
        m091_4(s, mp, me);
        m091_5(s, mp, me);
});
kit::obligation!(m092, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m092_0(s, mp, me);
        m092_1(s, mp, me);
        m092_2(s, mp, me);
        m092_3(s, mp, me);
        m092_4(s, mp, me);
        m092_5(s, mp, me);
});
kit::obligation!(m093, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m093_0(s, mp, me);
        m093_1(s, mp, me);
        m093_2(s, mp, me);
        m093_3(s, mp, me);
        m093_4(s, mp, me);
        m093_5(s, mp, me);
});
kit::obligation!(m094, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m094_0(s, mp, me);
        m094_1(s, mp, me);
        m094_2(s, mp, me);
        m094_3(s, mp, me);
        m094_4(s, mp, me);
        m094_5(s, mp, me);
});
kit::obligation!(m095, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m095_0(s, mp, me);
        m095_1(s, mp, me);
        m095_2(s, mp, me);
        m095_3(s, mp, me);
        m095_4(s, mp, me);
        m095_5(s, mp, me);
});
kit::obligation!(m096, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m096_0(s, mp, me);
        m096_1(s, mp, me);
        m096_2(s, mp, me);
        m096_3(s, mp, me);
        m096_4(s, mp, me);
        m096_5(s, mp, me);
});
kit::obligation!(m097, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m097_0(s, mp, me);
        m097_1(s, mp, me);
        m097_2(s, mp, me);
        m097_3(s, mp, me);
        m097_4(s, mp, me);
        m097_5(s, mp, me);
});
kit::obligation!(m098, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m098_0(s, mp, me);
        m098_1(s, mp, me);
        m098_2(s, mp, me);
        m098_3(s, mp, me);
        m098_4(s, mp, me);
        m098_5(s, mp, me);
});
kit::obligation!(m099, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m099_0(s, mp, me);
        m099_1(s, mp, me);
        m099_2(s, mp, me);
        m099_3(s, mp, me);
        m099_4(s, mp, me);
        m099_5(s, mp, me);
});
kit::obligation!(m100, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m100_0(s, mp, me);
        m100_1(s, mp, me);
        m100_2(s, mp, me);
        m100_3(s, mp, me);
        m100_4(s, mp, me);
        m100_5(s, mp, me);
});
kit::obligation!(m101, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m101_0(s, mp, me);
        m101_1(s, mp, me);
        m101_2(s, mp, me);
        m101_3(s, mp, me);
        m101_4(s, mp, me);
        m101_5(s, mp, me);
});
kit::obligation!(m102, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m102_0(s, mp, me);
        m102_1(s, mp, me);
        m102_2(s, mp, me);
        m102_3(s, mp, me);
        m102_4(s, mp, me);
        m102_5(s, mp, me);
});
kit::obligation!(m103, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m103_0(s, mp, me);
        m103_1(s, mp, me);
        m103_2(s, mp, me);
        m103_3(s, mp, me);
        m103_4(s, mp, me);
        m103_5(s, mp, me);
});
kit::obligation!(m104, kani, unwind = 9, |s| {
        let (mp, me) = any_mem(s);
        m104_0(s, mp, me);
});
fn r000_0<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("adcb Gpr8, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x10]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x12]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: adcb Gpr8, Gpr8");
    reach!("adcb Gpr8, Gpr8");
}
fn r000_1<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("adcb Gpr8, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x80]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: adcb Gpr8, i8");
    reach!("adcb Gpr8, i8");
}
fn r000_2<S: Src>(s: &mut S) {
    let p0 = _Al; let v0 = Opv::F;
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("adcb _Al, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x14]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: adcb _Al, i8");
    reach!("adcb _Al, i8");
}
fn r000_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("adcl Gpr32, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x11]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x13]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: adcl Gpr32, Gpr32");
    reach!("adcl Gpr32, Gpr32");
}
fn r000_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("adcl Gpr32, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: adcl Gpr32, i32");
    reach!("adcl Gpr32, i32");
}
fn r000_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("adcl Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: adcl Gpr32, i8");
    reach!("adcl Gpr32, i8");
}
fn r000_6<S: Src>(s: &mut S) {
    let p0 = _Eax; let v0 = Opv::F;
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("adcl _Eax, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x15]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: adcl _Eax, i32");
    reach!("adcl _Eax, i32");
}
fn r000_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("adcq Gpr64, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x11]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x13]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: adcq Gpr64, Gpr64");
    reach!("adcq Gpr64, Gpr64");
}
fn r000_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("adcq Gpr64, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x81]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: adcq Gpr64, i32");
    reach!("adcq Gpr64, i32");
}
fn r000_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("adcq Gpr64, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x83]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: adcq Gpr64, i8");
    reach!("adcq Gpr64, i8");
}
fn r000_10<S: Src>(s: &mut S) {
    let p0 = _Rax; let v0 = Opv::F;
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("adcq _Rax, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x15]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: adcq _Rax, i32");
    reach!("adcq _Rax, i32");
}
fn r000_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("adcw Gpr16, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x11]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x13]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: adcw Gpr16, Gpr16");
    reach!("adcw Gpr16, Gpr16");
}
fn r001_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("adcw Gpr16, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: adcw Gpr16, i16");
    reach!("adcw Gpr16, i16");
}
fn r001_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("adcw Gpr16, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: adcw Gpr16, i8");
    reach!("adcw Gpr16, i8");
}
fn r001_2<S: Src>(s: &mut S) {
    let p0 = _Ax; let v0 = Opv::F;
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("adcw _Ax, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x15]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: adcw _Ax, i16");
    reach!("adcw _Ax, i16");
}
fn r001_3<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addb Gpr8, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x00]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x02]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: addb Gpr8, Gpr8");
    reach!("addb Gpr8, Gpr8");
}
fn r001_4<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addb Gpr8, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x80]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: addb Gpr8, i8");
    reach!("addb Gpr8, i8");
}
fn r001_5<S: Src>(s: &mut S) {
    let p0 = _Al; let v0 = Opv::F;
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addb _Al, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x04]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: addb _Al, i8");
    reach!("addb _Al, i8");
}
fn r001_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addl Gpr32, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x01]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x03]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: addl Gpr32, Gpr32");
    reach!("addl Gpr32, Gpr32");
}
fn r001_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addl Gpr32, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: addl Gpr32, i32");
    reach!("addl Gpr32, i32");
}
fn r001_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addl Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: addl Gpr32, i8");
    reach!("addl Gpr32, i8");
}
fn r001_9<S: Src>(s: &mut S) {
    let p0 = _Eax; let v0 = Opv::F;
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addl _Eax, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x05]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: addl _Eax, i32");
    reach!("addl _Eax, i32");
}
fn r001_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addpd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x58]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: addpd Xmm, Xmm");
    reach!("addpd Xmm, Xmm");
}
fn r001_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addps Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x58]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: addps Xmm, Xmm");
    reach!("addps Xmm, Xmm");
}
fn r002_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("addq Gpr64, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x01]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x03]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: addq Gpr64, Gpr64");
    reach!("addq Gpr64, Gpr64");
}
fn r002_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("addq Gpr64, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x81]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: addq Gpr64, i32");
    reach!("addq Gpr64, i32");
}
fn r002_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("addq Gpr64, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x83]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: addq Gpr64, i8");
    reach!("addq Gpr64, i8");
}
fn r002_3<S: Src>(s: &mut S) {
    let p0 = _Rax; let v0 = Opv::F;
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("addq _Rax, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x05]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: addq _Rax, i32");
    reach!("addq _Rax, i32");
}
fn r002_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addsd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addsd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x58]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: addsd Xmm, Xmm");
    reach!("addsd Xmm, Xmm");
}
fn r002_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addss Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x58]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: addss Xmm, Xmm");
    reach!("addss Xmm, Xmm");
}
fn r002_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addw Gpr16, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x01]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x03]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: addw Gpr16, Gpr16");
    reach!("addw Gpr16, Gpr16");
}
fn r002_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addw Gpr16, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: addw Gpr16, i16");
    reach!("addw Gpr16, i16");
}
fn r002_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addw Gpr16, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: addw Gpr16, i8");
    reach!("addw Gpr16, i8");
}
fn r002_9<S: Src>(s: &mut S) {
    let p0 = _Ax; let v0 = Opv::F;
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addw _Ax, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x05]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: addw _Ax, i16");
    reach!("addw _Ax, i16");
}
fn r002_10<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andb Gpr8, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x20]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x22]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: andb Gpr8, Gpr8");
    reach!("andb Gpr8, Gpr8");
}
fn r002_11<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andb Gpr8, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x80]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: andb Gpr8, i8");
    reach!("andb Gpr8, i8");
}
fn r003_0<S: Src>(s: &mut S) {
    let p0 = _Al; let v0 = Opv::F;
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andb _Al, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x24]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: andb _Al, i8");
    reach!("andb _Al, i8");
}
fn r003_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andl Gpr32, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x21]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x23]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: andl Gpr32, Gpr32");
    reach!("andl Gpr32, Gpr32");
}
fn r003_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andl Gpr32, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: andl Gpr32, i32");
    reach!("andl Gpr32, i32");
}
fn r003_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andl Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: andl Gpr32, i8");
    reach!("andl Gpr32, i8");
}
fn r003_4<S: Src>(s: &mut S) {
    let p0 = _Eax; let v0 = Opv::F;
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andl _Eax, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x25]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: andl _Eax, i32");
    reach!("andl _Eax, i32");
}
fn r003_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andnpd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andnpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x55]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: andnpd Xmm, Xmm");
    reach!("andnpd Xmm, Xmm");
}
fn r003_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andnps Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andnps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x55]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: andnps Xmm, Xmm");
    reach!("andnps Xmm, Xmm");
}
fn r003_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andpd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x54]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: andpd Xmm, Xmm");
    reach!("andpd Xmm, Xmm");
}
fn r003_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andps Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x54]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: andps Xmm, Xmm");
    reach!("andps Xmm, Xmm");
}
fn r003_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("andq Gpr64, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x21]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x23]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: andq Gpr64, Gpr64");
    reach!("andq Gpr64, Gpr64");
}
fn r003_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("andq Gpr64, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x81]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: andq Gpr64, i32");
    reach!("andq Gpr64, i32");
}
fn r003_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("andq Gpr64, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x83]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: andq Gpr64, i8");
    reach!("andq Gpr64, i8");
}
fn r004_0<S: Src>(s: &mut S) {
    let p0 = _Rax; let v0 = Opv::F;
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("andq _Rax, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x25]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: andq _Rax, i32");
    reach!("andq _Rax, i32");
}
fn r004_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andw Gpr16, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x21]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x23]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: andw Gpr16, Gpr16");
    reach!("andw Gpr16, Gpr16");
}
fn r004_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andw Gpr16, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: andw Gpr16, i16");
    reach!("andw Gpr16, i16");
}
fn r004_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andw Gpr16, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: andw Gpr16, i8");
    reach!("andw Gpr16, i8");
}
fn r004_4<S: Src>(s: &mut S) {
    let p0 = _Ax; let v0 = Opv::F;
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andw _Ax, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x25]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: andw _Ax, i16");
    reach!("andw _Ax, i16");
}
fn r004_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("blendpd Xmm, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.blendpd(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x0d]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: blendpd Xmm, Xmm, i8");
    reach!("blendpd Xmm, Xmm, i8");
}
fn r004_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("blendps Xmm, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.blendps(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x0c]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: blendps Xmm, Xmm, i8");
    reach!("blendps Xmm, Xmm, i8");
}
fn r004_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = _Xmm0; let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("blendvpd Xmm, Xmm, _Xmm0 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.blendvpd(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x15]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: blendvpd Xmm, Xmm, _Xmm0");
    reach!("blendvpd Xmm, Xmm, _Xmm0");
}
fn r004_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = _Xmm0; let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("blendvps Xmm, Xmm, _Xmm0 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.blendvps(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x14]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: blendvps Xmm, Xmm, _Xmm0");
    reach!("blendvps Xmm, Xmm, _Xmm0");
}
fn r004_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("bsfl Gpr32, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.bsfl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xbc]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: bsfl Gpr32, Gpr32");
    reach!("bsfl Gpr32, Gpr32");
}
fn r004_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("bsfq Gpr64, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.bsfq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xbc]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: bsfq Gpr64, Gpr64");
    reach!("bsfq Gpr64, Gpr64");
}
fn r004_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("bsfw Gpr16, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.bsfw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xbc]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: bsfw Gpr16, Gpr16");
    reach!("bsfw Gpr16, Gpr16");
}
fn r005_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("bsrl Gpr32, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.bsrl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xbd]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: bsrl Gpr32, Gpr32");
    reach!("bsrl Gpr32, Gpr32");
}
fn r005_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("bsrq Gpr64, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.bsrq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xbd]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: bsrq Gpr64, Gpr64");
    reach!("bsrq Gpr64, Gpr64");
}
fn r005_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("bsrw Gpr16, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.bsrw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xbd]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: bsrw Gpr16, Gpr16");
    reach!("bsrw Gpr16, Gpr16");
}
fn r005_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("bswap Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.bswap(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xc8]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: 0, imm: -1 }, &ops), "instruction encoding: bswap Gpr32");
    reach!("bswap Gpr32");
}
fn r005_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("bswap Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.bswap(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xc8]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: 0, imm: -1 }, &ops), "instruction encoding: bswap Gpr64");
    reach!("bswap Gpr64");
}
fn r005_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btcl Gpr32, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btcl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xbb]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: btcl Gpr32, Gpr32");
    reach!("btcl Gpr32, Gpr32");
}
fn r005_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btcl Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btcl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xba]) }, opn: 2, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: btcl Gpr32, i8");
    reach!("btcl Gpr32, i8");
}
fn r005_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("btcq Gpr64, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btcq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xbb]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: btcq Gpr64, Gpr64");
    reach!("btcq Gpr64, Gpr64");
}
fn r005_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("btcq Gpr64, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btcq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xba]) }, opn: 2, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: btcq Gpr64, i8");
    reach!("btcq Gpr64, i8");
}
fn r005_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btcw Gpr16, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btcw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xbb]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: btcw Gpr16, Gpr16");
    reach!("btcw Gpr16, Gpr16");
}
fn r005_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btcw Gpr16, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btcw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xba]) }, opn: 2, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: btcw Gpr16, i8");
    reach!("btcw Gpr16, i8");
}
fn r005_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btl Gpr32, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xa3]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: btl Gpr32, Gpr32");
    reach!("btl Gpr32, Gpr32");
}
fn r006_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btl Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xba]) }, opn: 2, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: btl Gpr32, i8");
    reach!("btl Gpr32, i8");
}
fn r006_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("btq Gpr64, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xa3]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: btq Gpr64, Gpr64");
    reach!("btq Gpr64, Gpr64");
}
fn r006_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("btq Gpr64, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xba]) }, opn: 2, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: btq Gpr64, i8");
    reach!("btq Gpr64, i8");
}
fn r006_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btrl Gpr32, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btrl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xb3]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: btrl Gpr32, Gpr32");
    reach!("btrl Gpr32, Gpr32");
}
fn r006_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btrl Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btrl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xba]) }, opn: 2, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: btrl Gpr32, i8");
    reach!("btrl Gpr32, i8");
}
fn r006_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("btrq Gpr64, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btrq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xb3]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: btrq Gpr64, Gpr64");
    reach!("btrq Gpr64, Gpr64");
}
fn r006_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("btrq Gpr64, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btrq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xba]) }, opn: 2, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: btrq Gpr64, i8");
    reach!("btrq Gpr64, i8");
}
fn r006_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btrw Gpr16, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btrw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xb3]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: btrw Gpr16, Gpr16");
    reach!("btrw Gpr16, Gpr16");
}
fn r006_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btrw Gpr16, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btrw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xba]) }, opn: 2, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: btrw Gpr16, i8");
    reach!("btrw Gpr16, i8");
}
fn r006_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btsl Gpr32, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btsl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xab]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: btsl Gpr32, Gpr32");
    reach!("btsl Gpr32, Gpr32");
}
fn r006_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btsl Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btsl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xba]) }, opn: 2, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: btsl Gpr32, i8");
    reach!("btsl Gpr32, i8");
}
fn r006_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("btsq Gpr64, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btsq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xab]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: btsq Gpr64, Gpr64");
    reach!("btsq Gpr64, Gpr64");
}
fn r007_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("btsq Gpr64, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btsq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xba]) }, opn: 2, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: btsq Gpr64, i8");
    reach!("btsq Gpr64, i8");
}
fn r007_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btsw Gpr16, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btsw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xab]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: btsw Gpr16, Gpr16");
    reach!("btsw Gpr16, Gpr16");
}
fn r007_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btsw Gpr16, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btsw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xba]) }, opn: 2, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: btsw Gpr16, i8");
    reach!("btsw Gpr16, i8");
}
fn r007_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btw Gpr16, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xa3]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: btw Gpr16, Gpr16");
    reach!("btw Gpr16, Gpr16");
}
fn r007_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btw Gpr16, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xba]) }, opn: 2, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: btw Gpr16, i8");
    reach!("btw Gpr16, i8");
}
fn r007_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("callq Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.callq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xff]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: callq Gpr64");
    reach!("callq Gpr64");
}
fn r007_6<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("callq i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.callq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xe8]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: callq i32");
    reach!("callq i32");
}
fn r007_7<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cbtw {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cbtw();
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x98]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cbtw");
    reach!("cbtw");
}
fn r007_8<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("clc {:?}", ops));
    let mut k = Sink::new();
    let _ = k.clc();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf8]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: clc");
    reach!("clc");
}
fn r007_9<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cld {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cld();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xfc]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cld");
    reach!("cld");
}
fn r007_10<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cli {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cli();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xfa]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cli");
    reach!("cli");
}
fn r007_11<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cltd {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cltd();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x99]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cltd");
    reach!("cltd");
}
fn r008_0<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("cltq {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cltq();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x98]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cltq");
    reach!("cltq");
}
fn r008_1<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("clts {:?}", ops));
    let mut k = Sink::new();
    let _ = k.clts();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x06]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: clts");
    reach!("clts");
}
fn r008_2<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmc {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmc();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf5]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cmc");
    reach!("cmc");
}
fn r008_3<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpb Gpr8, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x38]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x3a]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cmpb Gpr8, Gpr8");
    reach!("cmpb Gpr8, Gpr8");
}
fn r008_4<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpb Gpr8, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x80]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: cmpb Gpr8, i8");
    reach!("cmpb Gpr8, i8");
}
fn r008_5<S: Src>(s: &mut S) {
    let p0 = _Al; let v0 = Opv::F;
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpb _Al, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x3c]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: cmpb _Al, i8");
    reach!("cmpb _Al, i8");
}
fn r008_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpl Gpr32, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x39]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x3b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cmpl Gpr32, Gpr32");
    reach!("cmpl Gpr32, Gpr32");
}
fn r008_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpl Gpr32, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: cmpl Gpr32, i32");
    reach!("cmpl Gpr32, i32");
}
fn r008_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpl Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: cmpl Gpr32, i8");
    reach!("cmpl Gpr32, i8");
}
fn r008_9<S: Src>(s: &mut S) {
    let p0 = _Eax; let v0 = Opv::F;
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpl _Eax, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x3d]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: cmpl _Eax, i32");
    reach!("cmpl _Eax, i32");
}
fn r008_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmppd Xmm, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmppd(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xc2]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: cmppd Xmm, Xmm, i8");
    reach!("cmppd Xmm, Xmm, i8");
}
fn r008_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpps Xmm, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpps(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xc2]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: cmpps Xmm, Xmm, i8");
    reach!("cmpps Xmm, Xmm, i8");
}
fn r009_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("cmpq Gpr64, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x39]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x3b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cmpq Gpr64, Gpr64");
    reach!("cmpq Gpr64, Gpr64");
}
fn r009_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("cmpq Gpr64, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x81]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: cmpq Gpr64, i32");
    reach!("cmpq Gpr64, i32");
}
fn r009_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("cmpq Gpr64, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x83]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: cmpq Gpr64, i8");
    reach!("cmpq Gpr64, i8");
}
fn r009_3<S: Src>(s: &mut S) {
    let p0 = _Rax; let v0 = Opv::F;
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("cmpq _Rax, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x3d]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: cmpq _Rax, i32");
    reach!("cmpq _Rax, i32");
}
fn r009_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpsd Xmm, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpsd(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0xc2]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: cmpsd Xmm, Xmm, i8");
    reach!("cmpsd Xmm, Xmm, i8");
}
fn r009_5<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpsl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpsl();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xa7]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cmpsl");
    reach!("cmpsl");
}
fn r009_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpss Xmm, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpss(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0xc2]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: cmpss Xmm, Xmm, i8");
    reach!("cmpss Xmm, Xmm, i8");
}
fn r009_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpw Gpr16, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x39]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x3b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cmpw Gpr16, Gpr16");
    reach!("cmpw Gpr16, Gpr16");
}
fn r009_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpw Gpr16, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: cmpw Gpr16, i16");
    reach!("cmpw Gpr16, i16");
}
fn r009_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpw Gpr16, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: cmpw Gpr16, i8");
    reach!("cmpw Gpr16, i8");
}
fn r009_10<S: Src>(s: &mut S) {
    let p0 = _Ax; let v0 = Opv::F;
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpw _Ax, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x3d]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: cmpw _Ax, i16");
    reach!("cmpw _Ax, i16");
}
fn r009_11<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpxchgb Gpr8, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpxchgb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xb0]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: cmpxchgb Gpr8, Gpr8");
    reach!("cmpxchgb Gpr8, Gpr8");
}
fn r010_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpxchgl Gpr32, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpxchgl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xb1]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: cmpxchgl Gpr32, Gpr32");
    reach!("cmpxchgl Gpr32, Gpr32");
}
fn r010_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("cmpxchgq Gpr64, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpxchgq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xb1]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: cmpxchgq Gpr64, Gpr64");
    reach!("cmpxchgq Gpr64, Gpr64");
}
fn r010_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpxchgw Gpr16, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpxchgw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xb1]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: cmpxchgw Gpr16, Gpr16");
    reach!("cmpxchgw Gpr16, Gpr16");
}
fn r010_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("comisd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.comisd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x2f]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: comisd Xmm, Xmm");
    reach!("comisd Xmm, Xmm");
}
fn r010_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("comiss Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.comiss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x2f]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: comiss Xmm, Xmm");
    reach!("comiss Xmm, Xmm");
}
fn r010_5<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cpuid {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cpuid();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xa2]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cpuid");
    reach!("cpuid");
}
fn r010_6<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("cqto {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cqto();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x99]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cqto");
    reach!("cqto");
}
fn r010_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("crc32b Gpr32, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.crc32b(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x38, 0xf0]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: crc32b Gpr32, Gpr8");
    reach!("crc32b Gpr32, Gpr8");
}
fn r010_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("crc32b Gpr64, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.crc32b(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: true, op: const { op(&[0x0f, 0x38, 0xf0]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: crc32b Gpr64, Gpr8");
    reach!("crc32b Gpr64, Gpr8");
}
fn r010_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("crc32l Gpr32, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.crc32l(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x38, 0xf1]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: crc32l Gpr32, Gpr32");
    reach!("crc32l Gpr32, Gpr32");
}
fn r010_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("crc32q Gpr64, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.crc32q(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: true, op: const { op(&[0x0f, 0x38, 0xf1]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: crc32q Gpr64, Gpr64");
    reach!("crc32q Gpr64, Gpr64");
}
fn r010_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("crc32w Gpr32, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.crc32w(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2, 0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0xf1]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: crc32w Gpr32, Gpr16");
    reach!("crc32w Gpr32, Gpr16");
}
fn r011_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvtdq2pd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtdq2pd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0xe6]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtdq2pd Xmm, Xmm");
    reach!("cvtdq2pd Xmm, Xmm");
}
fn r011_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvtdq2ps Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtdq2ps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x5b]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtdq2ps Xmm, Xmm");
    reach!("cvtdq2ps Xmm, Xmm");
}
fn r011_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvtpd2dq Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtpd2dq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0xe6]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtpd2dq Xmm, Xmm");
    reach!("cvtpd2dq Xmm, Xmm");
}
fn r011_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvtpd2ps Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtpd2ps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x5a]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtpd2ps Xmm, Xmm");
    reach!("cvtpd2ps Xmm, Xmm");
}
fn r011_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvtps2dq Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtps2dq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x5b]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtps2dq Xmm, Xmm");
    reach!("cvtps2dq Xmm, Xmm");
}
fn r011_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvtps2pd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtps2pd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x5a]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtps2pd Xmm, Xmm");
    reach!("cvtps2pd Xmm, Xmm");
}
fn r011_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvtsd2si Gpr32, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtsd2si(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x2d]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtsd2si Gpr32, Xmm");
    reach!("cvtsd2si Gpr32, Xmm");
}
fn r011_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("cvtsd2si Gpr64, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtsd2si(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: true, op: const { op(&[0x0f, 0x2d]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtsd2si Gpr64, Xmm");
    reach!("cvtsd2si Gpr64, Xmm");
}
fn r011_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvtsd2ss Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtsd2ss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x5a]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtsd2ss Xmm, Xmm");
    reach!("cvtsd2ss Xmm, Xmm");
}
fn r011_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvtsi2sdl Xmm, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtsi2sdl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x2a]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtsi2sdl Xmm, Gpr32");
    reach!("cvtsi2sdl Xmm, Gpr32");
}
fn r011_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("cvtsi2sdq Xmm, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtsi2sdq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: true, op: const { op(&[0x0f, 0x2a]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtsi2sdq Xmm, Gpr64");
    reach!("cvtsi2sdq Xmm, Gpr64");
}
fn r011_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvtsi2ssl Xmm, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtsi2ssl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x2a]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtsi2ssl Xmm, Gpr32");
    reach!("cvtsi2ssl Xmm, Gpr32");
}
fn r012_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("cvtsi2ssq Xmm, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtsi2ssq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: true, op: const { op(&[0x0f, 0x2a]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtsi2ssq Xmm, Gpr64");
    reach!("cvtsi2ssq Xmm, Gpr64");
}
fn r012_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvtss2sd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtss2sd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x5a]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtss2sd Xmm, Xmm");
    reach!("cvtss2sd Xmm, Xmm");
}
fn r012_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvtss2si Gpr32, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtss2si(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x2d]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtss2si Gpr32, Xmm");
    reach!("cvtss2si Gpr32, Xmm");
}
fn r012_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("cvtss2si Gpr64, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtss2si(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: true, op: const { op(&[0x0f, 0x2d]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtss2si Gpr64, Xmm");
    reach!("cvtss2si Gpr64, Xmm");
}
fn r012_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvttpd2dq Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvttpd2dq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xe6]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvttpd2dq Xmm, Xmm");
    reach!("cvttpd2dq Xmm, Xmm");
}
fn r012_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvttps2dq Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvttps2dq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x5b]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvttps2dq Xmm, Xmm");
    reach!("cvttps2dq Xmm, Xmm");
}
fn r012_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvttsd2si Gpr32, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvttsd2si(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x2c]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvttsd2si Gpr32, Xmm");
    reach!("cvttsd2si Gpr32, Xmm");
}
fn r012_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("cvttsd2si Gpr64, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvttsd2si(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: true, op: const { op(&[0x0f, 0x2c]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvttsd2si Gpr64, Xmm");
    reach!("cvttsd2si Gpr64, Xmm");
}
fn r012_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvttss2si Gpr32, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvttss2si(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x2c]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvttss2si Gpr32, Xmm");
    reach!("cvttss2si Gpr32, Xmm");
}
fn r012_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("cvttss2si Gpr64, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvttss2si(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: true, op: const { op(&[0x0f, 0x2c]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvttss2si Gpr64, Xmm");
    reach!("cvttss2si Gpr64, Xmm");
}
fn r012_10<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cwtd {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cwtd();
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x99]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cwtd");
    reach!("cwtd");
}
fn r012_11<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cwtl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cwtl();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x98]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cwtl");
    reach!("cwtl");
}
fn r013_0<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("decb Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.decb(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xfe]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: decb Gpr8");
    reach!("decb Gpr8");
}
fn r013_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("decl Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.decl(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xff]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: decl Gpr32");
    reach!("decl Gpr32");
}
fn r013_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("decq Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.decq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xff]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: decq Gpr64");
    reach!("decq Gpr64");
}
fn r013_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("decw Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.decw(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xff]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: decw Gpr16");
    reach!("decw Gpr16");
}
fn r013_4<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("divb Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.divb(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf6]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: divb Gpr8");
    reach!("divb Gpr8");
}
fn r013_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("divl Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.divl(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: divl Gpr32");
    reach!("divl Gpr32");
}
fn r013_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("divpd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.divpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x5e]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: divpd Xmm, Xmm");
    reach!("divpd Xmm, Xmm");
}
fn r013_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("divps Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.divps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x5e]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: divps Xmm, Xmm");
    reach!("divps Xmm, Xmm");
}
fn r013_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("divq Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.divq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xf7]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: divq Gpr64");
    reach!("divq Gpr64");
}
fn r013_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("divsd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.divsd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x5e]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: divsd Xmm, Xmm");
    reach!("divsd Xmm, Xmm");
}
fn r013_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("divss Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.divss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x5e]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: divss Xmm, Xmm");
    reach!("divss Xmm, Xmm");
}
fn r013_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("divw Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.divw(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: divw Gpr16");
    reach!("divw Gpr16");
}
fn r014_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("dppd Xmm, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.dppd(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x41]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: dppd Xmm, Xmm, i8");
    reach!("dppd Xmm, Xmm, i8");
}
fn r014_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("dpps Xmm, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.dpps(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x40]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: dpps Xmm, Xmm, i8");
    reach!("dpps Xmm, Xmm, i8");
}
fn r014_2<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("emms {:?}", ops));
    let mut k = Sink::new();
    let _ = k.emms();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x77]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: emms");
    reach!("emms");
}
fn r014_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("extractps Gpr64, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.extractps(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x17]) }, opn: 3, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: 2 }, &ops), "instruction encoding: extractps Gpr64, Xmm, i8");
    reach!("extractps Gpr64, Xmm, i8");
}
fn r014_4<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("hlt {:?}", ops));
    let mut k = Sink::new();
    let _ = k.hlt();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf4]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: hlt");
    reach!("hlt");
}
fn r014_5<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("idivb Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.idivb(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf6]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: idivb Gpr8");
    reach!("idivb Gpr8");
}
fn r014_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("idivl Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.idivl(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: idivl Gpr32");
    reach!("idivl Gpr32");
}
fn r014_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("idivq Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.idivq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xf7]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: idivq Gpr64");
    reach!("idivq Gpr64");
}
fn r014_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("idivw Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.idivw(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: idivw Gpr16");
    reach!("idivw Gpr16");
}
fn r014_9<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("imulb Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imulb(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf6]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: imulb Gpr8");
    reach!("imulb Gpr8");
}
fn r014_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = s.i32(); let v2 = Opv::I32(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("imull Gpr32, Gpr32, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imull(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x69]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: imull Gpr32, Gpr32, i32");
    reach!("imull Gpr32, Gpr32, i32");
}
fn r014_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("imull Gpr32, Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imull(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x6b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: imull Gpr32, Gpr32, i8");
    reach!("imull Gpr32, Gpr32, i8");
}
fn r015_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("imull1 Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imull1(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: imull1 Gpr32");
    reach!("imull1 Gpr32");
}
fn r015_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("imull2 Gpr32, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imull2(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xaf]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: imull2 Gpr32, Gpr32");
    reach!("imull2 Gpr32, Gpr32");
}
fn r015_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = s.i32(); let v2 = Opv::I32(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("imulq Gpr64, Gpr64, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imulq(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x69]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: imulq Gpr64, Gpr64, i32");
    reach!("imulq Gpr64, Gpr64, i32");
}
fn r015_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("imulq Gpr64, Gpr64, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imulq(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x6b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: imulq Gpr64, Gpr64, i8");
    reach!("imulq Gpr64, Gpr64, i8");
}
fn r015_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("imulq1 Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imulq1(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xf7]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: imulq1 Gpr64");
    reach!("imulq1 Gpr64");
}
fn r015_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("imulq2 Gpr64, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imulq2(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xaf]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: imulq2 Gpr64, Gpr64");
    reach!("imulq2 Gpr64, Gpr64");
}
fn r015_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = s.i16(); let v2 = Opv::I16(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("imulw Gpr16, Gpr16, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imulw(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x69]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: imulw Gpr16, Gpr16, i16");
    reach!("imulw Gpr16, Gpr16, i16");
}
fn r015_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("imulw Gpr16, Gpr16, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imulw(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x6b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: imulw Gpr16, Gpr16, i8");
    reach!("imulw Gpr16, Gpr16, i8");
}
fn r015_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("imulw1 Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imulw1(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: imulw1 Gpr16");
    reach!("imulw1 Gpr16");
}
fn r015_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("imulw2 Gpr16, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imulw2(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xaf]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: imulw2 Gpr16, Gpr16");
    reach!("imulw2 Gpr16, Gpr16");
}
fn r015_10<S: Src>(s: &mut S) {
    let p0 = _Al; let v0 = Opv::F;
    let p1 = _Dx; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("inb _Al, _Dx {:?}", ops));
    let mut k = Sink::new();
    let _ = k.inb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xec]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: inb _Al, _Dx");
    reach!("inb _Al, _Dx");
}
fn r015_11<S: Src>(s: &mut S) {
    let p0 = _Al; let v0 = Opv::F;
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("inb _Al, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.inb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xe4]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: inb _Al, i8");
    reach!("inb _Al, i8");
}
fn r016_0<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("incb Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.incb(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xfe]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: incb Gpr8");
    reach!("incb Gpr8");
}
fn r016_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("incl Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.incl(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xff]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: incl Gpr32");
    reach!("incl Gpr32");
}
fn r016_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("incq Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.incq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xff]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: incq Gpr64");
    reach!("incq Gpr64");
}
fn r016_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("incw Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.incw(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xff]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: incw Gpr16");
    reach!("incw Gpr16");
}
fn r016_4<S: Src>(s: &mut S) {
    let p0 = _Eax; let v0 = Opv::F;
    let p1 = _Dx; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("inl _Eax, _Dx {:?}", ops));
    let mut k = Sink::new();
    let _ = k.inl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xed]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: inl _Eax, _Dx");
    reach!("inl _Eax, _Dx");
}
fn r016_5<S: Src>(s: &mut S) {
    let p0 = _Eax; let v0 = Opv::F;
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("inl _Eax, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.inl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xe5]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: inl _Eax, i8");
    reach!("inl _Eax, i8");
}
fn r016_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("insertps Xmm, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.insertps(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x21]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: insertps Xmm, Xmm, i8");
    reach!("insertps Xmm, Xmm, i8");
}
fn r016_7<S: Src>(s: &mut S) {
    let p0 = _3; let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("int _3 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.int(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xcc]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: int _3");
    reach!("int _3");
}
fn r016_8<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("int i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.int(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xcd]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: int i8");
    reach!("int i8");
}
fn r016_9<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("invd {:?}", ops));
    let mut k = Sink::new();
    let _ = k.invd();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x08]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: invd");
    reach!("invd");
}
fn r016_10<S: Src>(s: &mut S) {
    let p0 = _Ax; let v0 = Opv::F;
    let p1 = _Dx; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("inw _Ax, _Dx {:?}", ops));
    let mut k = Sink::new();
    let _ = k.inw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xed]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: inw _Ax, _Dx");
    reach!("inw _Ax, _Dx");
}
fn r016_11<S: Src>(s: &mut S) {
    let p0 = _Ax; let v0 = Opv::F;
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("inw _Ax, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.inw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xe5]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: inw _Ax, i8");
    reach!("inw _Ax, i8");
}
fn r017_0<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("iretl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.iretl();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xcf]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: iretl");
    reach!("iretl");
}
fn r017_1<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("iretq {:?}", ops));
    let mut k = Sink::new();
    let _ = k.iretq();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xcf]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: iretq");
    reach!("iretq");
}
fn r017_2<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("iretw {:?}", ops));
    let mut k = Sink::new();
    let _ = k.iretw();
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xcf]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: iretw");
    reach!("iretw");
}
fn r017_3<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("ja i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.ja(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x87]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: ja i32");
    reach!("ja i32");
}
fn r017_4<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("ja i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.ja(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x77]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: ja i8");
    reach!("ja i8");
}
fn r017_5<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jae i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jae(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x83]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jae i32");
    reach!("jae i32");
}
fn r017_6<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jae i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jae(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x73]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jae i8");
    reach!("jae i8");
}
fn r017_7<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jb i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jb(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x82]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jb i32");
    reach!("jb i32");
}
fn r017_8<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jb i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jb(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x72]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jb i8");
    reach!("jb i8");
}
fn r017_9<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jbe i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jbe(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x86]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jbe i32");
    reach!("jbe i32");
}
fn r017_10<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jbe i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jbe(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x76]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jbe i8");
    reach!("jbe i8");
}
fn r017_11<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jc i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jc(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x82]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jc i32");
    reach!("jc i32");
}
fn r018_0<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jc i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jc(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x72]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jc i8");
    reach!("jc i8");
}
fn r018_1<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("je i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.je(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x84]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: je i32");
    reach!("je i32");
}
fn r018_2<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("je i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.je(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x74]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: je i8");
    reach!("je i8");
}
fn r018_3<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jecxz i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jecxz(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x67]) }, w: false, op: const { op(&[0xe3]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jecxz i8");
    reach!("jecxz i8");
}
fn r018_4<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jg i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jg(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x8f]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jg i32");
    reach!("jg i32");
}
fn r018_5<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jg i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jg(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x7f]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jg i8");
    reach!("jg i8");
}
fn r018_6<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jge i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jge(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x8d]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jge i32");
    reach!("jge i32");
}
fn r018_7<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jge i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jge(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x7d]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jge i8");
    reach!("jge i8");
}
fn r018_8<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jl i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jl(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x8c]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jl i32");
    reach!("jl i32");
}
fn r018_9<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jl i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jl(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x7c]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jl i8");
    reach!("jl i8");
}
fn r018_10<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jle i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jle(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x8e]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jle i32");
    reach!("jle i32");
}
fn r018_11<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jle i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jle(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x7e]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jle i8");
    reach!("jle i8");
}
fn r019_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jmpq Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jmpq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xff]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: jmpq Gpr64");
    reach!("jmpq Gpr64");
}
fn r019_1<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jmpq i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jmpq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xe9]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jmpq i32");
    reach!("jmpq i32");
}
fn r019_2<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jmpq i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jmpq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xeb]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jmpq i8");
    reach!("jmpq i8");
}
fn r019_3<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jna i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jna(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x86]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jna i32");
    reach!("jna i32");
}
fn r019_4<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jna i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jna(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x76]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jna i8");
    reach!("jna i8");
}
fn r019_5<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jnae i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jnae(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x82]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jnae i32");
    reach!("jnae i32");
}
fn r019_6<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jnae i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jnae(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x72]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jnae i8");
    reach!("jnae i8");
}
fn r019_7<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jnb i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jnb(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x83]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jnb i32");
    reach!("jnb i32");
}
fn r019_8<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jnb i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jnb(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x73]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jnb i8");
    reach!("jnb i8");
}
fn r019_9<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jnbe i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jnbe(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x87]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jnbe i32");
    reach!("jnbe i32");
}
fn r019_10<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jnbe i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jnbe(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x77]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jnbe i8");
    reach!("jnbe i8");
}
fn r019_11<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jnc i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jnc(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x83]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jnc i32");
    reach!("jnc i32");
}
fn r020_0<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jnc i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jnc(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x73]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jnc i8");
    reach!("jnc i8");
}
fn r020_1<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jne i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jne(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x85]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jne i32");
    reach!("jne i32");
}
fn r020_2<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jne i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jne(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x75]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jne i8");
    reach!("jne i8");
}
fn r020_3<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jng i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jng(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x8e]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jng i32");
    reach!("jng i32");
}
fn r020_4<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jng i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jng(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x7e]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jng i8");
    reach!("jng i8");
}
fn r020_5<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jnge i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jnge(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x8c]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jnge i32");
    reach!("jnge i32");
}
fn r020_6<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jnge i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jnge(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x7c]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jnge i8");
    reach!("jnge i8");
}
fn r020_7<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jnl i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jnl(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x8d]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jnl i32");
    reach!("jnl i32");
}
fn r020_8<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jnl i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jnl(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x7d]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jnl i8");
    reach!("jnl i8");
}
fn r020_9<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jnle i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jnle(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x8f]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jnle i32");
    reach!("jnle i32");
}
fn r020_10<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jnle i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jnle(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x7f]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jnle i8");
    reach!("jnle i8");
}
fn r020_11<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jno i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jno(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x81]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jno i32");
    reach!("jno i32");
}
fn r021_0<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jno i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jno(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x71]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jno i8");
    reach!("jno i8");
}
fn r021_1<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jnp i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jnp(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x8b]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jnp i32");
    reach!("jnp i32");
}
fn r021_2<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jnp i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jnp(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x7b]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jnp i8");
    reach!("jnp i8");
}
fn r021_3<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jns i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jns(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x89]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jns i32");
    reach!("jns i32");
}
fn r021_4<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jns i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jns(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x79]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jns i8");
    reach!("jns i8");
}
fn r021_5<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jnz i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jnz(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x85]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jnz i32");
    reach!("jnz i32");
}
fn r021_6<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jnz i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jnz(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x75]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jnz i8");
    reach!("jnz i8");
}
fn r021_7<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jo i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jo(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x80]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jo i32");
    reach!("jo i32");
}
fn r021_8<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jo i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jo(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x70]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jo i8");
    reach!("jo i8");
}
fn r021_9<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jp i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jp(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x8a]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jp i32");
    reach!("jp i32");
}
fn r021_10<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jp i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jp(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x7a]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jp i8");
    reach!("jp i8");
}
fn r021_11<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jpe i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jpe(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x8a]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jpe i32");
    reach!("jpe i32");
}
fn r022_0<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jpe i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jpe(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x7a]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jpe i8");
    reach!("jpe i8");
}
fn r022_1<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jpo i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jpo(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x8b]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jpo i32");
    reach!("jpo i32");
}
fn r022_2<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jpo i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jpo(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x7b]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jpo i8");
    reach!("jpo i8");
}
fn r022_3<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jrcxz i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jrcxz(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xe3]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jrcxz i8");
    reach!("jrcxz i8");
}
fn r022_4<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("js i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.js(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x88]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: js i32");
    reach!("js i32");
}
fn r022_5<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("js i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.js(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x78]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: js i8");
    reach!("js i8");
}
fn r022_6<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jz i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jz(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x84]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jz i32");
    reach!("jz i32");
}
fn r022_7<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jz i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jz(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x74]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: jz i8");
    reach!("jz i8");
}
fn r022_8<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("leaveq {:?}", ops));
    let mut k = Sink::new();
    let _ = k.leaveq();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc9]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: leaveq");
    reach!("leaveq");
}
fn r022_9<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("leavew {:?}", ops));
    let mut k = Sink::new();
    let _ = k.leavew();
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xc9]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: leavew");
    reach!("leavew");
}
fn r022_10<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("lfence {:?}", ops));
    let mut k = Sink::new();
    let _ = k.lfence();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xae, 0xe8]) }, opn: 3, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: lfence");
    reach!("lfence");
}
fn r022_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("lmsw Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.lmsw(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x01]) }, opn: 2, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: lmsw Gpr16");
    reach!("lmsw Gpr16");
}
fn r023_0<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("lock {:?}", ops));
    let mut k = Sink::new();
    let _ = k.lock();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf0]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: lock");
    reach!("lock");
}
fn r023_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("maskmovdqu Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.maskmovdqu(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xf7]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: maskmovdqu Xmm, Xmm");
    reach!("maskmovdqu Xmm, Xmm");
}
fn r023_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("maxpd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.maxpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x5f]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: maxpd Xmm, Xmm");
    reach!("maxpd Xmm, Xmm");
}
fn r023_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("maxps Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.maxps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x5f]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: maxps Xmm, Xmm");
    reach!("maxps Xmm, Xmm");
}
fn r023_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("maxsd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.maxsd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x5f]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: maxsd Xmm, Xmm");
    reach!("maxsd Xmm, Xmm");
}
fn r023_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("maxss Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.maxss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x5f]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: maxss Xmm, Xmm");
    reach!("maxss Xmm, Xmm");
}
fn r023_6<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("mfence {:?}", ops));
    let mut k = Sink::new();
    let _ = k.mfence();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xae, 0xf0]) }, opn: 3, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: mfence");
    reach!("mfence");
}
fn r023_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("minpd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.minpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x5d]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: minpd Xmm, Xmm");
    reach!("minpd Xmm, Xmm");
}
fn r023_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("minps Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.minps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x5d]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: minps Xmm, Xmm");
    reach!("minps Xmm, Xmm");
}
fn r023_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("minsd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.minsd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x5d]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: minsd Xmm, Xmm");
    reach!("minsd Xmm, Xmm");
}
fn r023_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("minss Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.minss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x5d]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: minss Xmm, Xmm");
    reach!("minss Xmm, Xmm");
}
fn r023_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movapd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movapd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x28]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x29]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movapd Xmm, Xmm");
    reach!("movapd Xmm, Xmm");
}
fn r024_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movaps Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movaps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x28]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x29]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movaps Xmm, Xmm");
    reach!("movaps Xmm, Xmm");
}
fn r024_1<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movb Gpr8, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x88]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x8a]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movb Gpr8, Gpr8");
    reach!("movb Gpr8, Gpr8");
}
fn r024_2<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movb Gpr8, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xb0]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: 0, imm: 1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc6]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: movb Gpr8, i8");
    reach!("movb Gpr8, i8");
}
fn r024_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movd Gpr32, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x7e]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movd Gpr32, Xmm");
    reach!("movd Gpr32, Xmm");
}
fn r024_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movd Xmm, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x6e]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movd Xmm, Gpr32");
    reach!("movd Xmm, Gpr32");
}
fn r024_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movdqa Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movdqa(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x6f]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x7f]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movdqa Xmm, Xmm");
    reach!("movdqa Xmm, Xmm");
}
fn r024_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movdqu Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movdqu(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x6f]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x7f]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movdqu Xmm, Xmm");
    reach!("movdqu Xmm, Xmm");
}
fn r024_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movhlps Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movhlps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x12]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movhlps Xmm, Xmm");
    reach!("movhlps Xmm, Xmm");
}
fn r024_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movl Gpr32, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x89]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x8b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movl Gpr32, Gpr32");
    reach!("movl Gpr32, Gpr32");
}
fn r024_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movl Gpr32, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xb8]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: 0, imm: 1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc7]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: movl Gpr32, i32");
    reach!("movl Gpr32, i32");
}
fn r024_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movlhps Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movlhps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x16]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movlhps Xmm, Xmm");
    reach!("movlhps Xmm, Xmm");
}
fn r024_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movmskpd Gpr64, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movmskpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x50]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movmskpd Gpr64, Xmm");
    reach!("movmskpd Gpr64, Xmm");
}
fn r025_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movmskps Gpr64, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movmskps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x50]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movmskps Gpr64, Xmm");
    reach!("movmskps Gpr64, Xmm");
}
fn r025_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("movq Gpr64, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x89]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x8b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movq Gpr64, Gpr64");
    reach!("movq Gpr64, Gpr64");
}
fn r025_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("movq Gpr64, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: true, op: const { op(&[0x0f, 0x7e]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movq Gpr64, Xmm");
    reach!("movq Gpr64, Xmm");
}
fn r025_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("movq Gpr64, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xc7]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: movq Gpr64, i32");
    reach!("movq Gpr64, i32");
}
fn r025_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i64(); let v1 = Opv::I64(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("movq Gpr64, i64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xb8]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: 0, imm: 1 }, &ops), "instruction encoding: movq Gpr64, i64");
    reach!("movq Gpr64, i64");
}
fn r025_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("movq Xmm, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: true, op: const { op(&[0x0f, 0x6e]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movq Xmm, Gpr64");
    reach!("movq Xmm, Gpr64");
}
fn r025_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movq Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x7e]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xd6]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movq Xmm, Xmm");
    reach!("movq Xmm, Xmm");
}
fn r025_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movsbl Gpr32, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movsbl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xbe]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movsbl Gpr32, Gpr8");
    reach!("movsbl Gpr32, Gpr8");
}
fn r025_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("movsbq Gpr64, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movsbq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xbe]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movsbq Gpr64, Gpr8");
    reach!("movsbq Gpr64, Gpr8");
}
fn r025_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movsbw Gpr16, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movsbw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xbe]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movsbw Gpr16, Gpr8");
    reach!("movsbw Gpr16, Gpr8");
}
fn r025_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movsd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movsd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x10]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x11]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movsd Xmm, Xmm");
    reach!("movsd Xmm, Xmm");
}
fn r025_11<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movsl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movsl();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xa5]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movsl");
    reach!("movsl");
}
fn r026_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("movslq Gpr64, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movslq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x63]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movslq Gpr64, Gpr32");
    reach!("movslq Gpr64, Gpr32");
}
fn r026_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movss Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x10]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x11]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movss Xmm, Xmm");
    reach!("movss Xmm, Xmm");
}
fn r026_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movswl Gpr32, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movswl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xbf]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movswl Gpr32, Gpr16");
    reach!("movswl Gpr32, Gpr16");
}
fn r026_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("movswq Gpr64, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movswq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xbf]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movswq Gpr64, Gpr16");
    reach!("movswq Gpr64, Gpr16");
}
fn r026_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movupd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movupd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x10]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x11]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movupd Xmm, Xmm");
    reach!("movupd Xmm, Xmm");
}
fn r026_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movups Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movups(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x10]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x11]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movups Xmm, Xmm");
    reach!("movups Xmm, Xmm");
}
fn r026_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movw Gpr16, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x89]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x8b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movw Gpr16, Gpr16");
    reach!("movw Gpr16, Gpr16");
}
fn r026_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movw Gpr16, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xb8]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: 0, imm: 1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xc7]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: movw Gpr16, i16");
    reach!("movw Gpr16, i16");
}
fn r026_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movzbl Gpr32, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movzbl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xb6]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movzbl Gpr32, Gpr8");
    reach!("movzbl Gpr32, Gpr8");
}
fn r026_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("movzbq Gpr64, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movzbq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xb6]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movzbq Gpr64, Gpr8");
    reach!("movzbq Gpr64, Gpr8");
}
fn r026_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movzbw Gpr16, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movzbw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xb6]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movzbw Gpr16, Gpr8");
    reach!("movzbw Gpr16, Gpr8");
}
fn r026_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movzwl Gpr32, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movzwl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xb7]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movzwl Gpr32, Gpr16");
    reach!("movzwl Gpr32, Gpr16");
}
fn r027_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("movzwq Gpr64, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movzwq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xb7]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movzwq Gpr64, Gpr16");
    reach!("movzwq Gpr64, Gpr16");
}
fn r027_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("mpsadbw Xmm, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.mpsadbw(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x42]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: mpsadbw Xmm, Xmm, i8");
    reach!("mpsadbw Xmm, Xmm, i8");
}
fn r027_2<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("mulb Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.mulb(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf6]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: mulb Gpr8");
    reach!("mulb Gpr8");
}
fn r027_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("mull Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.mull(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: mull Gpr32");
    reach!("mull Gpr32");
}
fn r027_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("mulpd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.mulpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x59]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: mulpd Xmm, Xmm");
    reach!("mulpd Xmm, Xmm");
}
fn r027_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("mulps Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.mulps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x59]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: mulps Xmm, Xmm");
    reach!("mulps Xmm, Xmm");
}
fn r027_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("mulq Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.mulq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xf7]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: mulq Gpr64");
    reach!("mulq Gpr64");
}
fn r027_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("mulsd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.mulsd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x59]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: mulsd Xmm, Xmm");
    reach!("mulsd Xmm, Xmm");
}
fn r027_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("mulss Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.mulss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x59]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: mulss Xmm, Xmm");
    reach!("mulss Xmm, Xmm");
}
fn r027_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("mulw Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.mulw(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: mulw Gpr16");
    reach!("mulw Gpr16");
}
fn r027_10<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("negb Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.negb(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf6]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: negb Gpr8");
    reach!("negb Gpr8");
}
fn r027_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("negl Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.negl(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: negl Gpr32");
    reach!("negl Gpr32");
}
fn r028_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("negq Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.negq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xf7]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: negq Gpr64");
    reach!("negq Gpr64");
}
fn r028_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("negw Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.negw(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: negw Gpr16");
    reach!("negw Gpr16");
}
fn r028_2<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("nop {:?}", ops));
    let mut k = Sink::new();
    let _ = k.nop();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x90]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: nop");
    reach!("nop");
}
fn r028_3<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("notb Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.notb(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf6]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: notb Gpr8");
    reach!("notb Gpr8");
}
fn r028_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("notl Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.notl(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: notl Gpr32");
    reach!("notl Gpr32");
}
fn r028_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("notq Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.notq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xf7]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: notq Gpr64");
    reach!("notq Gpr64");
}
fn r028_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("notw Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.notw(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: notw Gpr16");
    reach!("notw Gpr16");
}
fn r028_7<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orb Gpr8, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x08]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0a]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: orb Gpr8, Gpr8");
    reach!("orb Gpr8, Gpr8");
}
fn r028_8<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orb Gpr8, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x80]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: orb Gpr8, i8");
    reach!("orb Gpr8, i8");
}
fn r028_9<S: Src>(s: &mut S) {
    let p0 = _Al; let v0 = Opv::F;
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orb _Al, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0c]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: orb _Al, i8");
    reach!("orb _Al, i8");
}
fn r028_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orl Gpr32, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x09]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: orl Gpr32, Gpr32");
    reach!("orl Gpr32, Gpr32");
}
fn r028_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orl Gpr32, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: orl Gpr32, i32");
    reach!("orl Gpr32, i32");
}
fn r029_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orl Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: orl Gpr32, i8");
    reach!("orl Gpr32, i8");
}
fn r029_1<S: Src>(s: &mut S) {
    let p0 = _Eax; let v0 = Opv::F;
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orl _Eax, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0d]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: orl _Eax, i32");
    reach!("orl _Eax, i32");
}
fn r029_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orpd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x56]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: orpd Xmm, Xmm");
    reach!("orpd Xmm, Xmm");
}
fn r029_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orps Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x56]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: orps Xmm, Xmm");
    reach!("orps Xmm, Xmm");
}
fn r029_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("orq Gpr64, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x09]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: orq Gpr64, Gpr64");
    reach!("orq Gpr64, Gpr64");
}
fn r029_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("orq Gpr64, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x81]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: orq Gpr64, i32");
    reach!("orq Gpr64, i32");
}
fn r029_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("orq Gpr64, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x83]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: orq Gpr64, i8");
    reach!("orq Gpr64, i8");
}
fn r029_7<S: Src>(s: &mut S) {
    let p0 = _Rax; let v0 = Opv::F;
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("orq _Rax, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0d]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: orq _Rax, i32");
    reach!("orq _Rax, i32");
}
fn r029_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orw Gpr16, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x09]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: orw Gpr16, Gpr16");
    reach!("orw Gpr16, Gpr16");
}
fn r029_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orw Gpr16, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: orw Gpr16, i16");
    reach!("orw Gpr16, i16");
}
fn r029_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orw Gpr16, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: orw Gpr16, i8");
    reach!("orw Gpr16, i8");
}
fn r029_11<S: Src>(s: &mut S) {
    let p0 = _Ax; let v0 = Opv::F;
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orw _Ax, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0d]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: orw _Ax, i16");
    reach!("orw _Ax, i16");
}
fn r030_0<S: Src>(s: &mut S) {
    let p0 = _Dx; let v0 = Opv::F;
    let p1 = _Al; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("outb _Dx, _Al {:?}", ops));
    let mut k = Sink::new();
    let _ = k.outb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xee]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: outb _Dx, _Al");
    reach!("outb _Dx, _Al");
}
fn r030_1<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let p1 = _Al; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("outb i8, _Al {:?}", ops));
    let mut k = Sink::new();
    let _ = k.outb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xe6]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: outb i8, _Al");
    reach!("outb i8, _Al");
}
fn r030_2<S: Src>(s: &mut S) {
    let p0 = _Dx; let v0 = Opv::F;
    let p1 = _Eax; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("outl _Dx, _Eax {:?}", ops));
    let mut k = Sink::new();
    let _ = k.outl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xef]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: outl _Dx, _Eax");
    reach!("outl _Dx, _Eax");
}
fn r030_3<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let p1 = _Eax; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("outl i8, _Eax {:?}", ops));
    let mut k = Sink::new();
    let _ = k.outl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xe7]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: outl i8, _Eax");
    reach!("outl i8, _Eax");
}
fn r030_4<S: Src>(s: &mut S) {
    let p0 = _Dx; let v0 = Opv::F;
    let p1 = _Ax; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("outw _Dx, _Ax {:?}", ops));
    let mut k = Sink::new();
    let _ = k.outw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xef]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: outw _Dx, _Ax");
    reach!("outw _Dx, _Ax");
}
fn r030_5<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let p1 = _Ax; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("outw i8, _Ax {:?}", ops));
    let mut k = Sink::new();
    let _ = k.outw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xe7]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: outw i8, _Ax");
    reach!("outw i8, _Ax");
}
fn r030_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("packssdw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.packssdw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x6b]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: packssdw Xmm, Xmm");
    reach!("packssdw Xmm, Xmm");
}
fn r030_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("packsswb Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.packsswb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x63]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: packsswb Xmm, Xmm");
    reach!("packsswb Xmm, Xmm");
}
fn r030_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("packusdw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.packusdw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x2b]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: packusdw Xmm, Xmm");
    reach!("packusdw Xmm, Xmm");
}
fn r030_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("packuswb Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.packuswb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x67]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: packuswb Xmm, Xmm");
    reach!("packuswb Xmm, Xmm");
}
fn r030_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("paddb Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.paddb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xfc]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: paddb Xmm, Xmm");
    reach!("paddb Xmm, Xmm");
}
fn r030_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("paddd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.paddd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xfe]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: paddd Xmm, Xmm");
    reach!("paddd Xmm, Xmm");
}
fn r031_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("paddq Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.paddq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xd4]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: paddq Xmm, Xmm");
    reach!("paddq Xmm, Xmm");
}
fn r031_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("paddsb Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.paddsb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xec]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: paddsb Xmm, Xmm");
    reach!("paddsb Xmm, Xmm");
}
fn r031_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("paddsw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.paddsw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xed]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: paddsw Xmm, Xmm");
    reach!("paddsw Xmm, Xmm");
}
fn r031_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("paddusb Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.paddusb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xdc]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: paddusb Xmm, Xmm");
    reach!("paddusb Xmm, Xmm");
}
fn r031_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("paddusw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.paddusw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xdd]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: paddusw Xmm, Xmm");
    reach!("paddusw Xmm, Xmm");
}
fn r031_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("paddw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.paddw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xfd]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: paddw Xmm, Xmm");
    reach!("paddw Xmm, Xmm");
}
fn r031_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pand Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pand(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xdb]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pand Xmm, Xmm");
    reach!("pand Xmm, Xmm");
}
fn r031_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pandn Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pandn(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xdf]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pandn Xmm, Xmm");
    reach!("pandn Xmm, Xmm");
}
fn r031_8<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pause {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pause();
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x90]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pause");
    reach!("pause");
}
fn r031_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pavgb Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pavgb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xe0]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pavgb Xmm, Xmm");
    reach!("pavgb Xmm, Xmm");
}
fn r031_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pavgw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pavgw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xe3]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pavgw Xmm, Xmm");
    reach!("pavgw Xmm, Xmm");
}
fn r031_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = _Xmm0; let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pblendvb Xmm, Xmm, _Xmm0 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pblendvb(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x10]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pblendvb Xmm, Xmm, _Xmm0");
    reach!("pblendvb Xmm, Xmm, _Xmm0");
}
fn r032_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pblendw Xmm, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pblendw(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x0e]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: pblendw Xmm, Xmm, i8");
    reach!("pblendw Xmm, Xmm, i8");
}
fn r032_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pcmpeqb Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pcmpeqb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x74]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pcmpeqb Xmm, Xmm");
    reach!("pcmpeqb Xmm, Xmm");
}
fn r032_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pcmpeqd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pcmpeqd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x76]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pcmpeqd Xmm, Xmm");
    reach!("pcmpeqd Xmm, Xmm");
}
fn r032_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pcmpeqq Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pcmpeqq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x29]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pcmpeqq Xmm, Xmm");
    reach!("pcmpeqq Xmm, Xmm");
}
fn r032_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pcmpeqw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pcmpeqw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x75]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pcmpeqw Xmm, Xmm");
    reach!("pcmpeqw Xmm, Xmm");
}
fn r032_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pcmpestri Xmm, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pcmpestri(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x61]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: pcmpestri Xmm, Xmm, i8");
    reach!("pcmpestri Xmm, Xmm, i8");
}
fn r032_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pcmpestrm Xmm, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pcmpestrm(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x60]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: pcmpestrm Xmm, Xmm, i8");
    reach!("pcmpestrm Xmm, Xmm, i8");
}
fn r032_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pcmpgtb Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pcmpgtb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x64]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pcmpgtb Xmm, Xmm");
    reach!("pcmpgtb Xmm, Xmm");
}
fn r032_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pcmpgtd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pcmpgtd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x66]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pcmpgtd Xmm, Xmm");
    reach!("pcmpgtd Xmm, Xmm");
}
fn r032_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pcmpgtq Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pcmpgtq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x37]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pcmpgtq Xmm, Xmm");
    reach!("pcmpgtq Xmm, Xmm");
}
fn r032_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pcmpgtw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pcmpgtw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x65]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pcmpgtw Xmm, Xmm");
    reach!("pcmpgtw Xmm, Xmm");
}
fn r032_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pcmpistri Xmm, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pcmpistri(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x63]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: pcmpistri Xmm, Xmm, i8");
    reach!("pcmpistri Xmm, Xmm, i8");
}
fn r033_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pcmpistrm Xmm, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pcmpistrm(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x62]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: pcmpistrm Xmm, Xmm, i8");
    reach!("pcmpistrm Xmm, Xmm, i8");
}
fn r033_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pextrb Gpr64, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pextrb(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x14]) }, opn: 3, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: 2 }, &ops), "instruction encoding: pextrb Gpr64, Xmm, i8");
    reach!("pextrb Gpr64, Xmm, i8");
}
fn r033_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pextrd Gpr32, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pextrd(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x16]) }, opn: 3, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: 2 }, &ops), "instruction encoding: pextrd Gpr32, Xmm, i8");
    reach!("pextrd Gpr32, Xmm, i8");
}
fn r033_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("pextrq Gpr64, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pextrq(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: true, op: const { op(&[0x0f, 0x3a, 0x16]) }, opn: 3, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: 2 }, &ops), "instruction encoding: pextrq Gpr64, Xmm, i8");
    reach!("pextrq Gpr64, Xmm, i8");
}
fn r033_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pextrw Gpr64, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pextrw(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xc5]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops) || decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x15]) }, opn: 3, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: 2 }, &ops), "instruction encoding: pextrw Gpr64, Xmm, i8");
    reach!("pextrw Gpr64, Xmm, i8");
}
fn r033_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("phminposuw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.phminposuw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x41]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: phminposuw Xmm, Xmm");
    reach!("phminposuw Xmm, Xmm");
}
fn r033_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pinsrb Xmm, Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pinsrb(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x20]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: pinsrb Xmm, Gpr32, i8");
    reach!("pinsrb Xmm, Gpr32, i8");
}
fn r033_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pinsrd Xmm, Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pinsrd(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x22]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: pinsrd Xmm, Gpr32, i8");
    reach!("pinsrd Xmm, Gpr32, i8");
}
fn r033_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pinsrw Xmm, Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pinsrw(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xc4]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: pinsrw Xmm, Gpr32, i8");
    reach!("pinsrw Xmm, Gpr32, i8");
}
fn r033_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmaddwd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmaddwd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xf5]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmaddwd Xmm, Xmm");
    reach!("pmaddwd Xmm, Xmm");
}
fn r033_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmaxsb Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmaxsb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x3c]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmaxsb Xmm, Xmm");
    reach!("pmaxsb Xmm, Xmm");
}
fn r033_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmaxsd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmaxsd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x3d]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmaxsd Xmm, Xmm");
    reach!("pmaxsd Xmm, Xmm");
}
fn r034_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmaxsw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmaxsw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xee]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmaxsw Xmm, Xmm");
    reach!("pmaxsw Xmm, Xmm");
}
fn r034_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmaxub Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmaxub(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xde]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmaxub Xmm, Xmm");
    reach!("pmaxub Xmm, Xmm");
}
fn r034_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmaxud Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmaxud(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x3f]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmaxud Xmm, Xmm");
    reach!("pmaxud Xmm, Xmm");
}
fn r034_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmaxuw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmaxuw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x3e]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmaxuw Xmm, Xmm");
    reach!("pmaxuw Xmm, Xmm");
}
fn r034_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pminsb Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pminsb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x38]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pminsb Xmm, Xmm");
    reach!("pminsb Xmm, Xmm");
}
fn r034_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pminsd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pminsd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x39]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pminsd Xmm, Xmm");
    reach!("pminsd Xmm, Xmm");
}
fn r034_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pminsw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pminsw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xea]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pminsw Xmm, Xmm");
    reach!("pminsw Xmm, Xmm");
}
fn r034_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pminub Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pminub(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xda]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pminub Xmm, Xmm");
    reach!("pminub Xmm, Xmm");
}
fn r034_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pminud Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pminud(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x3b]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pminud Xmm, Xmm");
    reach!("pminud Xmm, Xmm");
}
fn r034_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pminuw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pminuw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x3a]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pminuw Xmm, Xmm");
    reach!("pminuw Xmm, Xmm");
}
fn r034_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmovmskb Gpr64, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmovmskb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xd7]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmovmskb Gpr64, Xmm");
    reach!("pmovmskb Gpr64, Xmm");
}
fn r034_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmovsxbd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmovsxbd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x21]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmovsxbd Xmm, Xmm");
    reach!("pmovsxbd Xmm, Xmm");
}
fn r035_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmovsxbq Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmovsxbq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x22]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmovsxbq Xmm, Xmm");
    reach!("pmovsxbq Xmm, Xmm");
}
fn r035_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmovsxbw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmovsxbw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x20]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmovsxbw Xmm, Xmm");
    reach!("pmovsxbw Xmm, Xmm");
}
fn r035_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmovsxdq Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmovsxdq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x25]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmovsxdq Xmm, Xmm");
    reach!("pmovsxdq Xmm, Xmm");
}
fn r035_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmovsxwd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmovsxwd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x23]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmovsxwd Xmm, Xmm");
    reach!("pmovsxwd Xmm, Xmm");
}
fn r035_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmovsxwq Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmovsxwq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x24]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmovsxwq Xmm, Xmm");
    reach!("pmovsxwq Xmm, Xmm");
}
fn r035_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmovzxbd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmovzxbd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x31]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmovzxbd Xmm, Xmm");
    reach!("pmovzxbd Xmm, Xmm");
}
fn r035_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmovzxbq Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmovzxbq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x32]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmovzxbq Xmm, Xmm");
    reach!("pmovzxbq Xmm, Xmm");
}
fn r035_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmovzxbw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmovzxbw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x30]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmovzxbw Xmm, Xmm");
    reach!("pmovzxbw Xmm, Xmm");
}
fn r035_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmovzxdq Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmovzxdq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x35]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmovzxdq Xmm, Xmm");
    reach!("pmovzxdq Xmm, Xmm");
}
fn r035_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmovzxwd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmovzxwd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x33]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmovzxwd Xmm, Xmm");
    reach!("pmovzxwd Xmm, Xmm");
}
fn r035_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmovzxwq Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmovzxwq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x34]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmovzxwq Xmm, Xmm");
    reach!("pmovzxwq Xmm, Xmm");
}
fn r035_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmuldq Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmuldq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x28]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmuldq Xmm, Xmm");
    reach!("pmuldq Xmm, Xmm");
}
fn r036_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmulhuw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmulhuw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xe4]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmulhuw Xmm, Xmm");
    reach!("pmulhuw Xmm, Xmm");
}
fn r036_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmulhw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmulhw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xe5]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmulhw Xmm, Xmm");
    reach!("pmulhw Xmm, Xmm");
}
fn r036_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmulld Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmulld(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x40]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmulld Xmm, Xmm");
    reach!("pmulld Xmm, Xmm");
}
fn r036_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmullw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmullw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xd5]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmullw Xmm, Xmm");
    reach!("pmullw Xmm, Xmm");
}
fn r036_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmuludq Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmuludq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xf4]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmuludq Xmm, Xmm");
    reach!("pmuludq Xmm, Xmm");
}
fn r036_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("popcntl Gpr32, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.popcntl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0xb8]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: popcntl Gpr32, Gpr32");
    reach!("popcntl Gpr32, Gpr32");
}
fn r036_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("popcntq Gpr64, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.popcntq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: true, op: const { op(&[0x0f, 0xb8]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: popcntq Gpr64, Gpr64");
    reach!("popcntq Gpr64, Gpr64");
}
fn r036_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("popcntw Gpr16, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.popcntw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3, 0x66]) }, w: false, op: const { op(&[0x0f, 0xb8]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: popcntw Gpr16, Gpr16");
    reach!("popcntw Gpr16, Gpr16");
}
fn r036_8<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("popfq {:?}", ops));
    let mut k = Sink::new();
    let _ = k.popfq();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x9d]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: popfq");
    reach!("popfq");
}
fn r036_9<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("popfw {:?}", ops));
    let mut k = Sink::new();
    let _ = k.popfw();
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x9d]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: popfw");
    reach!("popfw");
}
fn r036_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("popq Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.popq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x8f]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x58]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: 0, imm: -1 }, &ops), "instruction encoding: popq Gpr64");
    reach!("popq Gpr64");
}
fn r036_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("popw Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.popw(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x8f]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x58]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: 0, imm: -1 }, &ops), "instruction encoding: popw Gpr16");
    reach!("popw Gpr16");
}
fn r037_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("por Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.por(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xeb]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: por Xmm, Xmm");
    reach!("por Xmm, Xmm");
}
fn r037_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psadbw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psadbw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xf6]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psadbw Xmm, Xmm");
    reach!("psadbw Xmm, Xmm");
}
fn r037_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pshufd Xmm, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pshufd(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x70]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: pshufd Xmm, Xmm, i8");
    reach!("pshufd Xmm, Xmm, i8");
}
fn r037_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pshufhw Xmm, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pshufhw(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x70]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: pshufhw Xmm, Xmm, i8");
    reach!("pshufhw Xmm, Xmm, i8");
}
fn r037_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pshuflw Xmm, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pshuflw(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x70]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: pshuflw Xmm, Xmm, i8");
    reach!("pshuflw Xmm, Xmm, i8");
}
fn r037_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pslld Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pslld(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xf2]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pslld Xmm, Xmm");
    reach!("pslld Xmm, Xmm");
}
fn r037_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pslld Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pslld(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x72]) }, opn: 2, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: pslld Xmm, i8");
    reach!("pslld Xmm, i8");
}
fn r037_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pslldq Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pslldq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x73]) }, opn: 2, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: pslldq Xmm, i8");
    reach!("pslldq Xmm, i8");
}
fn r037_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psllq Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psllq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xf3]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psllq Xmm, Xmm");
    reach!("psllq Xmm, Xmm");
}
fn r037_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psllq Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psllq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x73]) }, opn: 2, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: psllq Xmm, i8");
    reach!("psllq Xmm, i8");
}
fn r037_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psllw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psllw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xf1]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psllw Xmm, Xmm");
    reach!("psllw Xmm, Xmm");
}
fn r037_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psllw Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psllw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x71]) }, opn: 2, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: psllw Xmm, i8");
    reach!("psllw Xmm, i8");
}
fn r038_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psrad Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psrad(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xe2]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psrad Xmm, Xmm");
    reach!("psrad Xmm, Xmm");
}
fn r038_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psrad Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psrad(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x72]) }, opn: 2, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: psrad Xmm, i8");
    reach!("psrad Xmm, i8");
}
fn r038_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psraw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psraw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xe1]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psraw Xmm, Xmm");
    reach!("psraw Xmm, Xmm");
}
fn r038_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psraw Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psraw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x71]) }, opn: 2, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: psraw Xmm, i8");
    reach!("psraw Xmm, i8");
}
fn r038_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psrld Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psrld(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xd2]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psrld Xmm, Xmm");
    reach!("psrld Xmm, Xmm");
}
fn r038_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psrld Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psrld(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x72]) }, opn: 2, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: psrld Xmm, i8");
    reach!("psrld Xmm, i8");
}
fn r038_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psrldq Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psrldq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x73]) }, opn: 2, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: psrldq Xmm, i8");
    reach!("psrldq Xmm, i8");
}
fn r038_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psrlq Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psrlq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xd3]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psrlq Xmm, Xmm");
    reach!("psrlq Xmm, Xmm");
}
fn r038_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psrlq Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psrlq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x73]) }, opn: 2, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: psrlq Xmm, i8");
    reach!("psrlq Xmm, i8");
}
fn r038_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psrlw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psrlw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xd1]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psrlw Xmm, Xmm");
    reach!("psrlw Xmm, Xmm");
}
fn r038_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psrlw Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psrlw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x71]) }, opn: 2, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: psrlw Xmm, i8");
    reach!("psrlw Xmm, i8");
}
fn r038_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psubb Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psubb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xf8]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psubb Xmm, Xmm");
    reach!("psubb Xmm, Xmm");
}
fn r039_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psubd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psubd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xfa]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psubd Xmm, Xmm");
    reach!("psubd Xmm, Xmm");
}
fn r039_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psubq Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psubq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xfb]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psubq Xmm, Xmm");
    reach!("psubq Xmm, Xmm");
}
fn r039_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psubsb Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psubsb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xe8]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psubsb Xmm, Xmm");
    reach!("psubsb Xmm, Xmm");
}
fn r039_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psubsw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psubsw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xe9]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psubsw Xmm, Xmm");
    reach!("psubsw Xmm, Xmm");
}
fn r039_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psubusb Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psubusb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xd8]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psubusb Xmm, Xmm");
    reach!("psubusb Xmm, Xmm");
}
fn r039_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psubusw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psubusw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xd9]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psubusw Xmm, Xmm");
    reach!("psubusw Xmm, Xmm");
}
fn r039_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psubw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psubw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xf9]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psubw Xmm, Xmm");
    reach!("psubw Xmm, Xmm");
}
fn r039_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("ptest Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.ptest(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x17]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: ptest Xmm, Xmm");
    reach!("ptest Xmm, Xmm");
}
fn r039_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("punpckhbw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.punpckhbw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x68]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: punpckhbw Xmm, Xmm");
    reach!("punpckhbw Xmm, Xmm");
}
fn r039_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("punpckhdq Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.punpckhdq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x6a]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: punpckhdq Xmm, Xmm");
    reach!("punpckhdq Xmm, Xmm");
}
fn r039_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("punpckhqdq Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.punpckhqdq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x6d]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: punpckhqdq Xmm, Xmm");
    reach!("punpckhqdq Xmm, Xmm");
}
fn r039_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("punpckhwd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.punpckhwd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x69]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: punpckhwd Xmm, Xmm");
    reach!("punpckhwd Xmm, Xmm");
}
fn r040_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("punpcklbw Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.punpcklbw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x60]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: punpcklbw Xmm, Xmm");
    reach!("punpcklbw Xmm, Xmm");
}
fn r040_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("punpckldq Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.punpckldq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x62]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: punpckldq Xmm, Xmm");
    reach!("punpckldq Xmm, Xmm");
}
fn r040_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("punpcklqdq Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.punpcklqdq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x6c]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: punpcklqdq Xmm, Xmm");
    reach!("punpcklqdq Xmm, Xmm");
}
fn r040_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("punpcklwd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.punpcklwd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x61]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: punpcklwd Xmm, Xmm");
    reach!("punpcklwd Xmm, Xmm");
}
fn r040_4<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pushfq {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pushfq();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x9c]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pushfq");
    reach!("pushfq");
}
fn r040_5<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pushfw {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pushfw();
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x9c]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pushfw");
    reach!("pushfw");
}
fn r040_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pushq Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pushq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xff]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x50]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: 0, imm: -1 }, &ops), "instruction encoding: pushq Gpr64");
    reach!("pushq Gpr64");
}
fn r040_7<S: Src>(s: &mut S) {
    let p0 = s.i16(); let v0 = Opv::I16(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pushq i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pushq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x68]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: pushq i16");
    reach!("pushq i16");
}
fn r040_8<S: Src>(s: &mut S) {
    let p0 = s.i32(); let v0 = Opv::I32(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pushq i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pushq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x68]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: pushq i32");
    reach!("pushq i32");
}
fn r040_9<S: Src>(s: &mut S) {
    let p0 = s.i8(); let v0 = Opv::I8(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pushq i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pushq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x6a]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: pushq i8");
    reach!("pushq i8");
}
fn r040_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pushw Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pushw(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xff]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x50]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: 0, imm: -1 }, &ops), "instruction encoding: pushw Gpr16");
    reach!("pushw Gpr16");
}
fn r040_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pxor Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pxor(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xef]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pxor Xmm, Xmm");
    reach!("pxor Xmm, Xmm");
}
fn r041_0<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rclb Gpr8, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rclb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd0]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rclb Gpr8, _1");
    reach!("rclb Gpr8, _1");
}
fn r041_1<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rclb Gpr8, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rclb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd2]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rclb Gpr8, _Cl");
    reach!("rclb Gpr8, _Cl");
}
fn r041_2<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rclb Gpr8, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rclb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc0]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rclb Gpr8, i8");
    reach!("rclb Gpr8, i8");
}
fn r041_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcll Gpr32, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcll(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rcll Gpr32, _1");
    reach!("rcll Gpr32, _1");
}
fn r041_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcll Gpr32, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcll(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rcll Gpr32, _Cl");
    reach!("rcll Gpr32, _Cl");
}
fn r041_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcll Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcll(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rcll Gpr32, i8");
    reach!("rcll Gpr32, i8");
}
fn r041_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("rclq Gpr64, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rclq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd1]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rclq Gpr64, _1");
    reach!("rclq Gpr64, _1");
}
fn r041_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("rclq Gpr64, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rclq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd3]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rclq Gpr64, _Cl");
    reach!("rclq Gpr64, _Cl");
}
fn r041_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("rclq Gpr64, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rclq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xc1]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rclq Gpr64, i8");
    reach!("rclq Gpr64, i8");
}
fn r041_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rclw Gpr16, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rclw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rclw Gpr16, _1");
    reach!("rclw Gpr16, _1");
}
fn r041_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rclw Gpr16, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rclw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rclw Gpr16, _Cl");
    reach!("rclw Gpr16, _Cl");
}
fn r041_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rclw Gpr16, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rclw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rclw Gpr16, i8");
    reach!("rclw Gpr16, i8");
}
fn r042_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcpps Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcpps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x53]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: rcpps Xmm, Xmm");
    reach!("rcpps Xmm, Xmm");
}
fn r042_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcpss Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcpss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x53]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: rcpss Xmm, Xmm");
    reach!("rcpss Xmm, Xmm");
}
fn r042_2<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcrb Gpr8, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcrb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd0]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rcrb Gpr8, _1");
    reach!("rcrb Gpr8, _1");
}
fn r042_3<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcrb Gpr8, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcrb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd2]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rcrb Gpr8, _Cl");
    reach!("rcrb Gpr8, _Cl");
}
fn r042_4<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcrb Gpr8, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcrb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc0]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rcrb Gpr8, i8");
    reach!("rcrb Gpr8, i8");
}
fn r042_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcrl Gpr32, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcrl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rcrl Gpr32, _1");
    reach!("rcrl Gpr32, _1");
}
fn r042_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcrl Gpr32, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcrl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rcrl Gpr32, _Cl");
    reach!("rcrl Gpr32, _Cl");
}
fn r042_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcrl Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcrl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rcrl Gpr32, i8");
    reach!("rcrl Gpr32, i8");
}
fn r042_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("rcrq Gpr64, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcrq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd1]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rcrq Gpr64, _1");
    reach!("rcrq Gpr64, _1");
}
fn r042_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("rcrq Gpr64, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcrq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd3]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rcrq Gpr64, _Cl");
    reach!("rcrq Gpr64, _Cl");
}
fn r042_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("rcrq Gpr64, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcrq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xc1]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rcrq Gpr64, i8");
    reach!("rcrq Gpr64, i8");
}
fn r042_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcrw Gpr16, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcrw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rcrw Gpr16, _1");
    reach!("rcrw Gpr16, _1");
}
fn r043_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcrw Gpr16, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcrw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rcrw Gpr16, _Cl");
    reach!("rcrw Gpr16, _Cl");
}
fn r043_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcrw Gpr16, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcrw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rcrw Gpr16, i8");
    reach!("rcrw Gpr16, i8");
}
fn r043_2<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("retq {:?}", ops));
    let mut k = Sink::new();
    let _ = k.retq();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc3]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: retq");
    reach!("retq");
}
fn r043_3<S: Src>(s: &mut S) {
    let p0 = s.i16(); let v0 = Opv::I16(p0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("retq1 i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.retq1(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc2]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 0 }, &ops), "instruction encoding: retq1 i16");
    reach!("retq1 i16");
}
fn r043_4<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rolb Gpr8, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rolb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd0]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rolb Gpr8, _1");
    reach!("rolb Gpr8, _1");
}
fn r043_5<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rolb Gpr8, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rolb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd2]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rolb Gpr8, _Cl");
    reach!("rolb Gpr8, _Cl");
}
fn r043_6<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rolb Gpr8, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rolb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc0]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rolb Gpr8, i8");
    reach!("rolb Gpr8, i8");
}
fn r043_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("roll Gpr32, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.roll(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: roll Gpr32, _1");
    reach!("roll Gpr32, _1");
}
fn r043_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("roll Gpr32, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.roll(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: roll Gpr32, _Cl");
    reach!("roll Gpr32, _Cl");
}
fn r043_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("roll Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.roll(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: roll Gpr32, i8");
    reach!("roll Gpr32, i8");
}
fn r043_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("rolq Gpr64, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rolq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd1]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rolq Gpr64, _1");
    reach!("rolq Gpr64, _1");
}
fn r043_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("rolq Gpr64, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rolq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd3]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rolq Gpr64, _Cl");
    reach!("rolq Gpr64, _Cl");
}
fn r044_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("rolq Gpr64, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rolq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xc1]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rolq Gpr64, i8");
    reach!("rolq Gpr64, i8");
}
fn r044_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rolw Gpr16, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rolw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rolw Gpr16, _1");
    reach!("rolw Gpr16, _1");
}
fn r044_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rolw Gpr16, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rolw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rolw Gpr16, _Cl");
    reach!("rolw Gpr16, _Cl");
}
fn r044_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rolw Gpr16, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rolw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rolw Gpr16, i8");
    reach!("rolw Gpr16, i8");
}
fn r044_4<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rorb Gpr8, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rorb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd0]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rorb Gpr8, _1");
    reach!("rorb Gpr8, _1");
}
fn r044_5<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rorb Gpr8, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rorb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd2]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rorb Gpr8, _Cl");
    reach!("rorb Gpr8, _Cl");
}
fn r044_6<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rorb Gpr8, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rorb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc0]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rorb Gpr8, i8");
    reach!("rorb Gpr8, i8");
}
fn r044_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rorl Gpr32, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rorl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rorl Gpr32, _1");
    reach!("rorl Gpr32, _1");
}
fn r044_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rorl Gpr32, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rorl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rorl Gpr32, _Cl");
    reach!("rorl Gpr32, _Cl");
}
fn r044_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rorl Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rorl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rorl Gpr32, i8");
    reach!("rorl Gpr32, i8");
}
fn r044_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("rorq Gpr64, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rorq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd1]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rorq Gpr64, _1");
    reach!("rorq Gpr64, _1");
}
fn r044_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("rorq Gpr64, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rorq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd3]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rorq Gpr64, _Cl");
    reach!("rorq Gpr64, _Cl");
}
fn r045_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("rorq Gpr64, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rorq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xc1]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rorq Gpr64, i8");
    reach!("rorq Gpr64, i8");
}
fn r045_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rorw Gpr16, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rorw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rorw Gpr16, _1");
    reach!("rorw Gpr16, _1");
}
fn r045_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rorw Gpr16, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rorw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rorw Gpr16, _Cl");
    reach!("rorw Gpr16, _Cl");
}
fn r045_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rorw Gpr16, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rorw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rorw Gpr16, i8");
    reach!("rorw Gpr16, i8");
}
fn r045_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("roundpd Xmm, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.roundpd(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x09]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: roundpd Xmm, Xmm, i8");
    reach!("roundpd Xmm, Xmm, i8");
}
fn r045_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("roundps Xmm, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.roundps(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x08]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: roundps Xmm, Xmm, i8");
    reach!("roundps Xmm, Xmm, i8");
}
fn r045_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("roundsd Xmm, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.roundsd(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x0b]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: roundsd Xmm, Xmm, i8");
    reach!("roundsd Xmm, Xmm, i8");
}
fn r045_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("roundss Xmm, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.roundss(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x0a]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: roundss Xmm, Xmm, i8");
    reach!("roundss Xmm, Xmm, i8");
}
fn r045_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rsqrtps Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rsqrtps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x52]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: rsqrtps Xmm, Xmm");
    reach!("rsqrtps Xmm, Xmm");
}
fn r045_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rsqrtss Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rsqrtss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x52]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: rsqrtss Xmm, Xmm");
    reach!("rsqrtss Xmm, Xmm");
}
fn r045_10<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("salb Gpr8, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.salb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd0]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: salb Gpr8, _1");
    reach!("salb Gpr8, _1");
}
fn r045_11<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("salb Gpr8, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.salb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd2]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: salb Gpr8, _Cl");
    reach!("salb Gpr8, _Cl");
}
fn r046_0<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("salb Gpr8, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.salb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc0]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: salb Gpr8, i8");
    reach!("salb Gpr8, i8");
}
fn r046_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sall Gpr32, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sall(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sall Gpr32, _1");
    reach!("sall Gpr32, _1");
}
fn r046_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sall Gpr32, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sall(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sall Gpr32, _Cl");
    reach!("sall Gpr32, _Cl");
}
fn r046_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sall Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sall(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: sall Gpr32, i8");
    reach!("sall Gpr32, i8");
}
fn r046_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("salq Gpr64, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.salq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd1]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: salq Gpr64, _1");
    reach!("salq Gpr64, _1");
}
fn r046_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("salq Gpr64, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.salq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd3]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: salq Gpr64, _Cl");
    reach!("salq Gpr64, _Cl");
}
fn r046_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("salq Gpr64, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.salq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xc1]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: salq Gpr64, i8");
    reach!("salq Gpr64, i8");
}
fn r046_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("salw Gpr16, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.salw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: salw Gpr16, _1");
    reach!("salw Gpr16, _1");
}
fn r046_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("salw Gpr16, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.salw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: salw Gpr16, _Cl");
    reach!("salw Gpr16, _Cl");
}
fn r046_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("salw Gpr16, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.salw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: salw Gpr16, i8");
    reach!("salw Gpr16, i8");
}
fn r046_10<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sarb Gpr8, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sarb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd0]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sarb Gpr8, _1");
    reach!("sarb Gpr8, _1");
}
fn r046_11<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sarb Gpr8, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sarb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd2]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sarb Gpr8, _Cl");
    reach!("sarb Gpr8, _Cl");
}
fn r047_0<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sarb Gpr8, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sarb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc0]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: sarb Gpr8, i8");
    reach!("sarb Gpr8, i8");
}
fn r047_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sarl Gpr32, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sarl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sarl Gpr32, _1");
    reach!("sarl Gpr32, _1");
}
fn r047_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sarl Gpr32, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sarl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sarl Gpr32, _Cl");
    reach!("sarl Gpr32, _Cl");
}
fn r047_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sarl Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sarl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: sarl Gpr32, i8");
    reach!("sarl Gpr32, i8");
}
fn r047_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("sarq Gpr64, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sarq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd1]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sarq Gpr64, _1");
    reach!("sarq Gpr64, _1");
}
fn r047_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("sarq Gpr64, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sarq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd3]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sarq Gpr64, _Cl");
    reach!("sarq Gpr64, _Cl");
}
fn r047_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("sarq Gpr64, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sarq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xc1]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: sarq Gpr64, i8");
    reach!("sarq Gpr64, i8");
}
fn r047_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sarw Gpr16, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sarw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sarw Gpr16, _1");
    reach!("sarw Gpr16, _1");
}
fn r047_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sarw Gpr16, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sarw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sarw Gpr16, _Cl");
    reach!("sarw Gpr16, _Cl");
}
fn r047_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sarw Gpr16, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sarw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: sarw Gpr16, i8");
    reach!("sarw Gpr16, i8");
}
fn r047_10<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sbbb Gpr8, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x18]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x1a]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: sbbb Gpr8, Gpr8");
    reach!("sbbb Gpr8, Gpr8");
}
fn r047_11<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sbbb Gpr8, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x80]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: sbbb Gpr8, i8");
    reach!("sbbb Gpr8, i8");
}
fn r048_0<S: Src>(s: &mut S) {
    let p0 = _Al; let v0 = Opv::F;
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sbbb _Al, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x1c]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: sbbb _Al, i8");
    reach!("sbbb _Al, i8");
}
fn r048_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sbbl Gpr32, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x19]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x1b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: sbbl Gpr32, Gpr32");
    reach!("sbbl Gpr32, Gpr32");
}
fn r048_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sbbl Gpr32, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: sbbl Gpr32, i32");
    reach!("sbbl Gpr32, i32");
}
fn r048_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sbbl Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: sbbl Gpr32, i8");
    reach!("sbbl Gpr32, i8");
}
fn r048_4<S: Src>(s: &mut S) {
    let p0 = _Eax; let v0 = Opv::F;
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sbbl _Eax, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x1d]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: sbbl _Eax, i32");
    reach!("sbbl _Eax, i32");
}
fn r048_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("sbbq Gpr64, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x19]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x1b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: sbbq Gpr64, Gpr64");
    reach!("sbbq Gpr64, Gpr64");
}
fn r048_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("sbbq Gpr64, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x81]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: sbbq Gpr64, i32");
    reach!("sbbq Gpr64, i32");
}
fn r048_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("sbbq Gpr64, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x83]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: sbbq Gpr64, i8");
    reach!("sbbq Gpr64, i8");
}
fn r048_8<S: Src>(s: &mut S) {
    let p0 = _Rax; let v0 = Opv::F;
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("sbbq _Rax, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x1d]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: sbbq _Rax, i32");
    reach!("sbbq _Rax, i32");
}
fn r048_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sbbw Gpr16, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x19]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x1b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: sbbw Gpr16, Gpr16");
    reach!("sbbw Gpr16, Gpr16");
}
fn r048_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sbbw Gpr16, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: sbbw Gpr16, i16");
    reach!("sbbw Gpr16, i16");
}
fn r048_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sbbw Gpr16, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: sbbw Gpr16, i8");
    reach!("sbbw Gpr16, i8");
}
fn r049_0<S: Src>(s: &mut S) {
    let p0 = _Ax; let v0 = Opv::F;
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sbbw _Ax, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x1d]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: sbbw _Ax, i16");
    reach!("sbbw _Ax, i16");
}
fn r049_1<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("seta Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.seta(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x97]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: seta Gpr8");
    reach!("seta Gpr8");
}
fn r049_2<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setae Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setae(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x93]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setae Gpr8");
    reach!("setae Gpr8");
}
fn r049_3<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setb Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setb(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x92]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setb Gpr8");
    reach!("setb Gpr8");
}
fn r049_4<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setbe Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setbe(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x96]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setbe Gpr8");
    reach!("setbe Gpr8");
}
fn r049_5<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setc Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setc(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x92]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setc Gpr8");
    reach!("setc Gpr8");
}
fn r049_6<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sete Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sete(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x94]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sete Gpr8");
    reach!("sete Gpr8");
}
fn r049_7<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setg Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setg(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x9f]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setg Gpr8");
    reach!("setg Gpr8");
}
fn r049_8<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setge Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setge(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x9d]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setge Gpr8");
    reach!("setge Gpr8");
}
fn r049_9<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setl Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setl(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x9c]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setl Gpr8");
    reach!("setl Gpr8");
}
fn r049_10<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setle Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setle(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x9e]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setle Gpr8");
    reach!("setle Gpr8");
}
fn r049_11<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setna Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setna(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x96]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setna Gpr8");
    reach!("setna Gpr8");
}
fn r050_0<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setnae Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setnae(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x92]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setnae Gpr8");
    reach!("setnae Gpr8");
}
fn r050_1<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setnb Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setnb(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x93]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setnb Gpr8");
    reach!("setnb Gpr8");
}
fn r050_2<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setnbe Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setnbe(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x97]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setnbe Gpr8");
    reach!("setnbe Gpr8");
}
fn r050_3<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setnc Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setnc(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x93]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setnc Gpr8");
    reach!("setnc Gpr8");
}
fn r050_4<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setne Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setne(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x95]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setne Gpr8");
    reach!("setne Gpr8");
}
fn r050_5<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setng Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setng(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x9e]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setng Gpr8");
    reach!("setng Gpr8");
}
fn r050_6<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setnge Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setnge(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x9c]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setnge Gpr8");
    reach!("setnge Gpr8");
}
fn r050_7<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setnl Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setnl(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x9d]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setnl Gpr8");
    reach!("setnl Gpr8");
}
fn r050_8<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setnle Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setnle(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x9f]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setnle Gpr8");
    reach!("setnle Gpr8");
}
fn r050_9<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setno Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setno(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x91]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setno Gpr8");
    reach!("setno Gpr8");
}
fn r050_10<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setnp Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setnp(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x9b]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setnp Gpr8");
    reach!("setnp Gpr8");
}
fn r050_11<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setns Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setns(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x99]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setns Gpr8");
    reach!("setns Gpr8");
}
fn r051_0<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setnz Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setnz(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x95]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setnz Gpr8");
    reach!("setnz Gpr8");
}
fn r051_1<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("seto Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.seto(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x90]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: seto Gpr8");
    reach!("seto Gpr8");
}
fn r051_2<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setp Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setp(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x9a]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setp Gpr8");
    reach!("setp Gpr8");
}
fn r051_3<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setpe Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setpe(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x9a]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setpe Gpr8");
    reach!("setpe Gpr8");
}
fn r051_4<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setpo Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setpo(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x9b]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setpo Gpr8");
    reach!("setpo Gpr8");
}
fn r051_5<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sets Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sets(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x98]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sets Gpr8");
    reach!("sets Gpr8");
}
fn r051_6<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setz Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setz(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x94]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setz Gpr8");
    reach!("setz Gpr8");
}
fn r051_7<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sfence {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sfence();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xae, 0xf8]) }, opn: 3, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: sfence");
    reach!("sfence");
}
fn r051_8<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shlb Gpr8, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shlb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd0]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shlb Gpr8, _1");
    reach!("shlb Gpr8, _1");
}
fn r051_9<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shlb Gpr8, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shlb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd2]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shlb Gpr8, _Cl");
    reach!("shlb Gpr8, _Cl");
}
fn r051_10<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shlb Gpr8, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shlb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc0]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: shlb Gpr8, i8");
    reach!("shlb Gpr8, i8");
}
fn r051_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = _Cl; let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shldl Gpr32, Gpr32, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shldl(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xa5]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shldl Gpr32, Gpr32, _Cl");
    reach!("shldl Gpr32, Gpr32, _Cl");
}
fn r052_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shldl Gpr32, Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shldl(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xa4]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: 2 }, &ops), "instruction encoding: shldl Gpr32, Gpr32, i8");
    reach!("shldl Gpr32, Gpr32, i8");
}
fn r052_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = _Cl; let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("shldq Gpr64, Gpr64, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shldq(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xa5]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shldq Gpr64, Gpr64, _Cl");
    reach!("shldq Gpr64, Gpr64, _Cl");
}
fn r052_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("shldq Gpr64, Gpr64, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shldq(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xa4]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: 2 }, &ops), "instruction encoding: shldq Gpr64, Gpr64, i8");
    reach!("shldq Gpr64, Gpr64, i8");
}
fn r052_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = _Cl; let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shldw Gpr16, Gpr16, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shldw(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xa5]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shldw Gpr16, Gpr16, _Cl");
    reach!("shldw Gpr16, Gpr16, _Cl");
}
fn r052_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shldw Gpr16, Gpr16, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shldw(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xa4]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: 2 }, &ops), "instruction encoding: shldw Gpr16, Gpr16, i8");
    reach!("shldw Gpr16, Gpr16, i8");
}
fn r052_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shll Gpr32, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shll(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shll Gpr32, _1");
    reach!("shll Gpr32, _1");
}
fn r052_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shll Gpr32, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shll(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shll Gpr32, _Cl");
    reach!("shll Gpr32, _Cl");
}
fn r052_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shll Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shll(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: shll Gpr32, i8");
    reach!("shll Gpr32, i8");
}
fn r052_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("shlq Gpr64, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shlq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd1]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shlq Gpr64, _1");
    reach!("shlq Gpr64, _1");
}
fn r052_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("shlq Gpr64, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shlq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd3]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shlq Gpr64, _Cl");
    reach!("shlq Gpr64, _Cl");
}
fn r052_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("shlq Gpr64, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shlq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xc1]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: shlq Gpr64, i8");
    reach!("shlq Gpr64, i8");
}
fn r052_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shlw Gpr16, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shlw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shlw Gpr16, _1");
    reach!("shlw Gpr16, _1");
}
fn r053_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shlw Gpr16, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shlw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shlw Gpr16, _Cl");
    reach!("shlw Gpr16, _Cl");
}
fn r053_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shlw Gpr16, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shlw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: shlw Gpr16, i8");
    reach!("shlw Gpr16, i8");
}
fn r053_2<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrb Gpr8, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd0]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shrb Gpr8, _1");
    reach!("shrb Gpr8, _1");
}
fn r053_3<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrb Gpr8, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd2]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shrb Gpr8, _Cl");
    reach!("shrb Gpr8, _Cl");
}
fn r053_4<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrb Gpr8, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc0]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: shrb Gpr8, i8");
    reach!("shrb Gpr8, i8");
}
fn r053_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = _Cl; let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrdl Gpr32, Gpr32, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrdl(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xad]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shrdl Gpr32, Gpr32, _Cl");
    reach!("shrdl Gpr32, Gpr32, _Cl");
}
fn r053_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrdl Gpr32, Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrdl(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xac]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: 2 }, &ops), "instruction encoding: shrdl Gpr32, Gpr32, i8");
    reach!("shrdl Gpr32, Gpr32, i8");
}
fn r053_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = _Cl; let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("shrdq Gpr64, Gpr64, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrdq(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xad]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shrdq Gpr64, Gpr64, _Cl");
    reach!("shrdq Gpr64, Gpr64, _Cl");
}
fn r053_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("shrdq Gpr64, Gpr64, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrdq(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xac]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: 2 }, &ops), "instruction encoding: shrdq Gpr64, Gpr64, i8");
    reach!("shrdq Gpr64, Gpr64, i8");
}
fn r053_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = _Cl; let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrdw Gpr16, Gpr16, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrdw(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xad]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shrdw Gpr16, Gpr16, _Cl");
    reach!("shrdw Gpr16, Gpr16, _Cl");
}
fn r053_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrdw Gpr16, Gpr16, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrdw(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xac]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: 2 }, &ops), "instruction encoding: shrdw Gpr16, Gpr16, i8");
    reach!("shrdw Gpr16, Gpr16, i8");
}
fn r053_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrl Gpr32, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shrl Gpr32, _1");
    reach!("shrl Gpr32, _1");
}
fn r054_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrl Gpr32, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shrl Gpr32, _Cl");
    reach!("shrl Gpr32, _Cl");
}
fn r054_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrl Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: shrl Gpr32, i8");
    reach!("shrl Gpr32, i8");
}
fn r054_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("shrq Gpr64, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd1]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shrq Gpr64, _1");
    reach!("shrq Gpr64, _1");
}
fn r054_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("shrq Gpr64, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd3]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shrq Gpr64, _Cl");
    reach!("shrq Gpr64, _Cl");
}
fn r054_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("shrq Gpr64, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xc1]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: shrq Gpr64, i8");
    reach!("shrq Gpr64, i8");
}
fn r054_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrw Gpr16, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shrw Gpr16, _1");
    reach!("shrw Gpr16, _1");
}
fn r054_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrw Gpr16, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shrw Gpr16, _Cl");
    reach!("shrw Gpr16, _Cl");
}
fn r054_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrw Gpr16, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: shrw Gpr16, i8");
    reach!("shrw Gpr16, i8");
}
fn r054_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shufpd Xmm, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shufpd(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xc6]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: shufpd Xmm, Xmm, i8");
    reach!("shufpd Xmm, Xmm, i8");
}
fn r054_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shufps Xmm, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shufps(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xc6]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: shufps Xmm, Xmm, i8");
    reach!("shufps Xmm, Xmm, i8");
}
fn r054_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sqrtpd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sqrtpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x51]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: sqrtpd Xmm, Xmm");
    reach!("sqrtpd Xmm, Xmm");
}
fn r054_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sqrtps Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sqrtps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x51]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: sqrtps Xmm, Xmm");
    reach!("sqrtps Xmm, Xmm");
}
fn r055_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sqrtsd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sqrtsd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x51]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: sqrtsd Xmm, Xmm");
    reach!("sqrtsd Xmm, Xmm");
}
fn r055_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sqrtss Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sqrtss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x51]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: sqrtss Xmm, Xmm");
    reach!("sqrtss Xmm, Xmm");
}
fn r055_2<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("stc {:?}", ops));
    let mut k = Sink::new();
    let _ = k.stc();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf9]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: stc");
    reach!("stc");
}
fn r055_3<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("std {:?}", ops));
    let mut k = Sink::new();
    let _ = k.std();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xfd]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: std");
    reach!("std");
}
fn r055_4<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sti {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sti();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xfb]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: sti");
    reach!("sti");
}
fn r055_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("str Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.str(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x00]) }, opn: 2, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: str Gpr16");
    reach!("str Gpr16");
}
fn r055_6<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subb Gpr8, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x28]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x2a]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: subb Gpr8, Gpr8");
    reach!("subb Gpr8, Gpr8");
}
fn r055_7<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subb Gpr8, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x80]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: subb Gpr8, i8");
    reach!("subb Gpr8, i8");
}
fn r055_8<S: Src>(s: &mut S) {
    let p0 = _Al; let v0 = Opv::F;
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subb _Al, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x2c]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: subb _Al, i8");
    reach!("subb _Al, i8");
}
fn r055_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subl Gpr32, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x29]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x2b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: subl Gpr32, Gpr32");
    reach!("subl Gpr32, Gpr32");
}
fn r055_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subl Gpr32, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: subl Gpr32, i32");
    reach!("subl Gpr32, i32");
}
fn r055_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subl Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: subl Gpr32, i8");
    reach!("subl Gpr32, i8");
}
fn r056_0<S: Src>(s: &mut S) {
    let p0 = _Eax; let v0 = Opv::F;
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subl _Eax, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x2d]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: subl _Eax, i32");
    reach!("subl _Eax, i32");
}
fn r056_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subpd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x5c]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: subpd Xmm, Xmm");
    reach!("subpd Xmm, Xmm");
}
fn r056_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subps Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x5c]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: subps Xmm, Xmm");
    reach!("subps Xmm, Xmm");
}
fn r056_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("subq Gpr64, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x29]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x2b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: subq Gpr64, Gpr64");
    reach!("subq Gpr64, Gpr64");
}
fn r056_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("subq Gpr64, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x81]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: subq Gpr64, i32");
    reach!("subq Gpr64, i32");
}
fn r056_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("subq Gpr64, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x83]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: subq Gpr64, i8");
    reach!("subq Gpr64, i8");
}
fn r056_6<S: Src>(s: &mut S) {
    let p0 = _Rax; let v0 = Opv::F;
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("subq _Rax, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x2d]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: subq _Rax, i32");
    reach!("subq _Rax, i32");
}
fn r056_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subsd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subsd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x5c]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: subsd Xmm, Xmm");
    reach!("subsd Xmm, Xmm");
}
fn r056_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subss Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x5c]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: subss Xmm, Xmm");
    reach!("subss Xmm, Xmm");
}
fn r056_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subw Gpr16, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x29]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x2b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: subw Gpr16, Gpr16");
    reach!("subw Gpr16, Gpr16");
}
fn r056_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subw Gpr16, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: subw Gpr16, i16");
    reach!("subw Gpr16, i16");
}
fn r056_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subw Gpr16, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: subw Gpr16, i8");
    reach!("subw Gpr16, i8");
}
fn r057_0<S: Src>(s: &mut S) {
    let p0 = _Ax; let v0 = Opv::F;
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subw _Ax, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x2d]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: subw _Ax, i16");
    reach!("subw _Ax, i16");
}
fn r057_1<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("swapgs {:?}", ops));
    let mut k = Sink::new();
    let _ = k.swapgs();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x01, 0xf8]) }, opn: 3, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: swapgs");
    reach!("swapgs");
}
fn r057_2<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("testb Gpr8, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.testb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x84]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: testb Gpr8, Gpr8");
    reach!("testb Gpr8, Gpr8");
}
fn r057_3<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("testb Gpr8, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.testb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf6]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: testb Gpr8, i8");
    reach!("testb Gpr8, i8");
}
fn r057_4<S: Src>(s: &mut S) {
    let p0 = _Al; let v0 = Opv::F;
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("testb _Al, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.testb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xa8]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: testb _Al, i8");
    reach!("testb _Al, i8");
}
fn r057_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("testl Gpr32, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.testl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x85]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: testl Gpr32, Gpr32");
    reach!("testl Gpr32, Gpr32");
}
fn r057_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("testl Gpr32, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.testl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: testl Gpr32, i32");
    reach!("testl Gpr32, i32");
}
fn r057_7<S: Src>(s: &mut S) {
    let p0 = _Eax; let v0 = Opv::F;
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("testl _Eax, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.testl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xa9]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: testl _Eax, i32");
    reach!("testl _Eax, i32");
}
fn r057_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("testq Gpr64, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.testq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x85]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: testq Gpr64, Gpr64");
    reach!("testq Gpr64, Gpr64");
}
fn r057_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("testq Gpr64, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.testq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xf7]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: testq Gpr64, i32");
    reach!("testq Gpr64, i32");
}
fn r057_10<S: Src>(s: &mut S) {
    let p0 = _Rax; let v0 = Opv::F;
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("testq _Rax, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.testq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xa9]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: testq _Rax, i32");
    reach!("testq _Rax, i32");
}
fn r057_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("testw Gpr16, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.testw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x85]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: testw Gpr16, Gpr16");
    reach!("testw Gpr16, Gpr16");
}
fn r058_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("testw Gpr16, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.testw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: testw Gpr16, i16");
    reach!("testw Gpr16, i16");
}
fn r058_1<S: Src>(s: &mut S) {
    let p0 = _Ax; let v0 = Opv::F;
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("testw _Ax, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.testw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xa9]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: testw _Ax, i16");
    reach!("testw _Ax, i16");
}
fn r058_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("ucomisd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.ucomisd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x2e]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: ucomisd Xmm, Xmm");
    reach!("ucomisd Xmm, Xmm");
}
fn r058_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("ucomiss Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.ucomiss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x2e]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: ucomiss Xmm, Xmm");
    reach!("ucomiss Xmm, Xmm");
}
fn r058_4<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("ud2 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.ud2();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x0b]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: ud2");
    reach!("ud2");
}
fn r058_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("unpckhpd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.unpckhpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x15]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: unpckhpd Xmm, Xmm");
    reach!("unpckhpd Xmm, Xmm");
}
fn r058_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("unpckhps Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.unpckhps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x15]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: unpckhps Xmm, Xmm");
    reach!("unpckhps Xmm, Xmm");
}
fn r058_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("unpcklpd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.unpcklpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x14]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: unpcklpd Xmm, Xmm");
    reach!("unpcklpd Xmm, Xmm");
}
fn r058_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("unpcklps Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.unpcklps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x14]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: unpcklps Xmm, Xmm");
    reach!("unpcklps Xmm, Xmm");
}
fn r058_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("verr Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.verr(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x00]) }, opn: 2, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: verr Gpr16");
    reach!("verr Gpr16");
}
fn r058_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("verw Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.verw(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x00]) }, opn: 2, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: verw Gpr16");
    reach!("verw Gpr16");
}
fn r058_11<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("wbinvd {:?}", ops));
    let mut k = Sink::new();
    let _ = k.wbinvd();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x09]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: wbinvd");
    reach!("wbinvd");
}
fn r059_0<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("wrmsr {:?}", ops));
    let mut k = Sink::new();
    let _ = k.wrmsr();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x30]) }, opn: 2, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: wrmsr");
    reach!("wrmsr");
}
fn r059_1<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xaddb Gpr8, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xaddb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xc0]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: xaddb Gpr8, Gpr8");
    reach!("xaddb Gpr8, Gpr8");
}
fn r059_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xaddl Gpr32, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xaddl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xc1]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: xaddl Gpr32, Gpr32");
    reach!("xaddl Gpr32, Gpr32");
}
fn r059_3<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("xaddq Gpr64, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xaddq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xc1]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: xaddq Gpr64, Gpr64");
    reach!("xaddq Gpr64, Gpr64");
}
fn r059_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xaddw Gpr16, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xaddw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xc1]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: xaddw Gpr16, Gpr16");
    reach!("xaddw Gpr16, Gpr16");
}
fn r059_5<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xchgb Gpr8, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xchgb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x86]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x86]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: xchgb Gpr8, Gpr8");
    reach!("xchgb Gpr8, Gpr8");
}
fn r059_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xchgl Gpr32, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xchgl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x87]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x87]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: xchgl Gpr32, Gpr32");
    reach!("xchgl Gpr32, Gpr32");
}
fn r059_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Eax; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xchgl Gpr32, _Eax {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xchgl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x90]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: 0, imm: -1 }, &ops), "instruction encoding: xchgl Gpr32, _Eax");
    reach!("xchgl Gpr32, _Eax");
}
fn r059_8<S: Src>(s: &mut S) {
    let p0 = _Eax; let v0 = Opv::F;
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xchgl _Eax, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xchgl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x90]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: 1, imm: -1 }, &ops), "instruction encoding: xchgl _Eax, Gpr32");
    reach!("xchgl _Eax, Gpr32");
}
fn r059_9<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("xchgq Gpr64, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xchgq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x87]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x87]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: xchgq Gpr64, Gpr64");
    reach!("xchgq Gpr64, Gpr64");
}
fn r059_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Rax; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("xchgq Gpr64, _Rax {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xchgq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x90]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: 0, imm: -1 }, &ops), "instruction encoding: xchgq Gpr64, _Rax");
    reach!("xchgq Gpr64, _Rax");
}
fn r059_11<S: Src>(s: &mut S) {
    let p0 = _Rax; let v0 = Opv::F;
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("xchgq _Rax, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xchgq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x90]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: 1, imm: -1 }, &ops), "instruction encoding: xchgq _Rax, Gpr64");
    reach!("xchgq _Rax, Gpr64");
}
fn r060_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xchgw Gpr16, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xchgw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x87]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x87]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: xchgw Gpr16, Gpr16");
    reach!("xchgw Gpr16, Gpr16");
}
fn r060_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = _Ax; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xchgw Gpr16, _Ax {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xchgw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x90]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: 0, imm: -1 }, &ops), "instruction encoding: xchgw Gpr16, _Ax");
    reach!("xchgw Gpr16, _Ax");
}
fn r060_2<S: Src>(s: &mut S) {
    let p0 = _Ax; let v0 = Opv::F;
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xchgw _Ax, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xchgw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x90]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: 1, imm: -1 }, &ops), "instruction encoding: xchgw _Ax, Gpr16");
    reach!("xchgw _Ax, Gpr16");
}
fn r060_3<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorb Gpr8, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x30]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x32]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: xorb Gpr8, Gpr8");
    reach!("xorb Gpr8, Gpr8");
}
fn r060_4<S: Src>(s: &mut S) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorb Gpr8, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x80]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: xorb Gpr8, i8");
    reach!("xorb Gpr8, i8");
}
fn r060_5<S: Src>(s: &mut S) {
    let p0 = _Al; let v0 = Opv::F;
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorb _Al, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x34]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: xorb _Al, i8");
    reach!("xorb _Al, i8");
}
fn r060_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorl Gpr32, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x31]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x33]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: xorl Gpr32, Gpr32");
    reach!("xorl Gpr32, Gpr32");
}
fn r060_7<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorl Gpr32, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: xorl Gpr32, i32");
    reach!("xorl Gpr32, i32");
}
fn r060_8<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorl Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: xorl Gpr32, i8");
    reach!("xorl Gpr32, i8");
}
fn r060_9<S: Src>(s: &mut S) {
    let p0 = _Eax; let v0 = Opv::F;
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorl _Eax, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x35]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: xorl _Eax, i32");
    reach!("xorl _Eax, i32");
}
fn r060_10<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorpd Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x57]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: xorpd Xmm, Xmm");
    reach!("xorpd Xmm, Xmm");
}
fn r060_11<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorps Xmm, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x57]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: xorps Xmm, Xmm");
    reach!("xorps Xmm, Xmm");
}
fn r061_0<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("xorq Gpr64, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x31]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x33]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: xorq Gpr64, Gpr64");
    reach!("xorq Gpr64, Gpr64");
}
fn r061_1<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("xorq Gpr64, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x81]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: xorq Gpr64, i32");
    reach!("xorq Gpr64, i32");
}
fn r061_2<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("xorq Gpr64, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x83]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: xorq Gpr64, i8");
    reach!("xorq Gpr64, i8");
}
fn r061_3<S: Src>(s: &mut S) {
    let p0 = _Rax; let v0 = Opv::F;
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("xorq _Rax, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x35]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: xorq _Rax, i32");
    reach!("xorq _Rax, i32");
}
fn r061_4<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorw Gpr16, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x31]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x33]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: xorw Gpr16, Gpr16");
    reach!("xorw Gpr16, Gpr16");
}
fn r061_5<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorw Gpr16, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: xorw Gpr16, i16");
    reach!("xorw Gpr16, i16");
}
fn r061_6<S: Src>(s: &mut S) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorw Gpr16, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: xorw Gpr16, i8");
    reach!("xorw Gpr16, i8");
}
fn r061_7<S: Src>(s: &mut S) {
    let p0 = _Ax; let v0 = Opv::F;
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorw _Ax, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x35]) }, opn: 1, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: 1 }, &ops), "instruction encoding: xorw _Ax, i16");
    reach!("xorw _Ax, i16");
}
fn r061_8<S: Src>(s: &mut S) {
    let v0 = Opv::F;
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xsetbv {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xsetbv();
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x01, 0xd1]) }, opn: 3, modrm: -1, reg: -1, rm: -1, opreg: -1, imm: -1 }, &ops), "instruction encoding: xsetbv");
    reach!("xsetbv");
}
fn m000_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("adcb Gpr8, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x12]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: adcb Gpr8, Memory");
    reach!("adcb Gpr8, Memory");
}
fn m000_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("adcb Memory, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x10]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: adcb Memory, Gpr8");
    reach!("adcb Memory, Gpr8");
}
fn m000_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("adcb Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x80]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: adcb Memory, i8");
    reach!("adcb Memory, i8");
}
fn m000_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("adcl Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x13]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: adcl Gpr32, Memory");
    reach!("adcl Gpr32, Memory");
}
fn m000_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("adcl Memory, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x11]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: adcl Memory, Gpr32");
    reach!("adcl Memory, Gpr32");
}
fn m000_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("adcl Memory, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: adcl Memory, i32");
    reach!("adcl Memory, i32");
}
fn m001_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("adcl Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: adcl Memory, i8");
    reach!("adcl Memory, i8");
}
fn m001_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("adcq Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x13]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: adcq Gpr64, Memory");
    reach!("adcq Gpr64, Memory");
}
fn m001_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("adcq Memory, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x11]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: adcq Memory, Gpr64");
    reach!("adcq Memory, Gpr64");
}
fn m001_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("adcq Memory, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x81]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: adcq Memory, i32");
    reach!("adcq Memory, i32");
}
fn m001_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("adcq Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x83]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: adcq Memory, i8");
    reach!("adcq Memory, i8");
}
fn m001_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("adcw Gpr16, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x13]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: adcw Gpr16, Memory");
    reach!("adcw Gpr16, Memory");
}
fn m002_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("adcw Memory, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x11]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: adcw Memory, Gpr16");
    reach!("adcw Memory, Gpr16");
}
fn m002_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("adcw Memory, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: adcw Memory, i16");
    reach!("adcw Memory, i16");
}
fn m002_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("adcw Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.adcw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: adcw Memory, i8");
    reach!("adcw Memory, i8");
}
fn m002_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addb Gpr8, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x02]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: addb Gpr8, Memory");
    reach!("addb Gpr8, Memory");
}
fn m002_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addb Memory, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x00]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: addb Memory, Gpr8");
    reach!("addb Memory, Gpr8");
}
fn m002_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addb Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x80]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: addb Memory, i8");
    reach!("addb Memory, i8");
}
fn m003_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addl Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x03]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: addl Gpr32, Memory");
    reach!("addl Gpr32, Memory");
}
fn m003_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addl Memory, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x01]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: addl Memory, Gpr32");
    reach!("addl Memory, Gpr32");
}
fn m003_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addl Memory, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: addl Memory, i32");
    reach!("addl Memory, i32");
}
fn m003_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addl Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: addl Memory, i8");
    reach!("addl Memory, i8");
}
fn m003_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addpd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x58]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: addpd Xmm, Memory");
    reach!("addpd Xmm, Memory");
}
fn m003_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addps Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x58]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: addps Xmm, Memory");
    reach!("addps Xmm, Memory");
}
fn m004_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("addq Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x03]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: addq Gpr64, Memory");
    reach!("addq Gpr64, Memory");
}
fn m004_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("addq Memory, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x01]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: addq Memory, Gpr64");
    reach!("addq Memory, Gpr64");
}
fn m004_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("addq Memory, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x81]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: addq Memory, i32");
    reach!("addq Memory, i32");
}
fn m004_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("addq Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x83]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: addq Memory, i8");
    reach!("addq Memory, i8");
}
fn m004_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addsd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addsd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x58]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: addsd Xmm, Memory");
    reach!("addsd Xmm, Memory");
}
fn m004_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addss Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x58]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: addss Xmm, Memory");
    reach!("addss Xmm, Memory");
}
fn m005_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addw Gpr16, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x03]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: addw Gpr16, Memory");
    reach!("addw Gpr16, Memory");
}
fn m005_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addw Memory, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x01]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: addw Memory, Gpr16");
    reach!("addw Memory, Gpr16");
}
fn m005_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addw Memory, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: addw Memory, i16");
    reach!("addw Memory, i16");
}
fn m005_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("addw Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.addw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: addw Memory, i8");
    reach!("addw Memory, i8");
}
fn m005_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andb Gpr8, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x22]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: andb Gpr8, Memory");
    reach!("andb Gpr8, Memory");
}
fn m005_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andb Memory, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x20]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: andb Memory, Gpr8");
    reach!("andb Memory, Gpr8");
}
fn m006_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andb Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x80]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: andb Memory, i8");
    reach!("andb Memory, i8");
}
fn m006_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andl Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x23]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: andl Gpr32, Memory");
    reach!("andl Gpr32, Memory");
}
fn m006_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andl Memory, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x21]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: andl Memory, Gpr32");
    reach!("andl Memory, Gpr32");
}
fn m006_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andl Memory, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: andl Memory, i32");
    reach!("andl Memory, i32");
}
fn m006_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andl Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: andl Memory, i8");
    reach!("andl Memory, i8");
}
fn m006_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andnpd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andnpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x55]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: andnpd Xmm, Memory");
    reach!("andnpd Xmm, Memory");
}
fn m007_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andnps Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andnps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x55]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: andnps Xmm, Memory");
    reach!("andnps Xmm, Memory");
}
fn m007_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andpd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x54]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: andpd Xmm, Memory");
    reach!("andpd Xmm, Memory");
}
fn m007_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andps Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x54]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: andps Xmm, Memory");
    reach!("andps Xmm, Memory");
}
fn m007_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("andq Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x23]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: andq Gpr64, Memory");
    reach!("andq Gpr64, Memory");
}
fn m007_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("andq Memory, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x21]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: andq Memory, Gpr64");
    reach!("andq Memory, Gpr64");
}
fn m007_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("andq Memory, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x81]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: andq Memory, i32");
    reach!("andq Memory, i32");
}
fn m008_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("andq Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x83]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: andq Memory, i8");
    reach!("andq Memory, i8");
}
fn m008_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andw Gpr16, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x23]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: andw Gpr16, Memory");
    reach!("andw Gpr16, Memory");
}
fn m008_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andw Memory, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x21]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: andw Memory, Gpr16");
    reach!("andw Memory, Gpr16");
}
fn m008_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andw Memory, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: andw Memory, i16");
    reach!("andw Memory, i16");
}
fn m008_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("andw Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.andw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: andw Memory, i8");
    reach!("andw Memory, i8");
}
fn m008_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("blendpd Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.blendpd(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x0d]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: blendpd Xmm, Memory, i8");
    reach!("blendpd Xmm, Memory, i8");
}
fn m009_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("blendps Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.blendps(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x0c]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: blendps Xmm, Memory, i8");
    reach!("blendps Xmm, Memory, i8");
}
fn m009_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = _Xmm0; let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("blendvpd Xmm, Memory, _Xmm0 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.blendvpd(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x15]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: blendvpd Xmm, Memory, _Xmm0");
    reach!("blendvpd Xmm, Memory, _Xmm0");
}
fn m009_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = _Xmm0; let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("blendvps Xmm, Memory, _Xmm0 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.blendvps(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x14]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: blendvps Xmm, Memory, _Xmm0");
    reach!("blendvps Xmm, Memory, _Xmm0");
}
fn m009_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("bsfl Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.bsfl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xbc]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: bsfl Gpr32, Memory");
    reach!("bsfl Gpr32, Memory");
}
fn m009_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("bsfq Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.bsfq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xbc]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: bsfq Gpr64, Memory");
    reach!("bsfq Gpr64, Memory");
}
fn m009_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("bsfw Gpr16, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.bsfw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xbc]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: bsfw Gpr16, Memory");
    reach!("bsfw Gpr16, Memory");
}
fn m010_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("bsrl Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.bsrl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xbd]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: bsrl Gpr32, Memory");
    reach!("bsrl Gpr32, Memory");
}
fn m010_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("bsrq Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.bsrq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xbd]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: bsrq Gpr64, Memory");
    reach!("bsrq Gpr64, Memory");
}
fn m010_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("bsrw Gpr16, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.bsrw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xbd]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: bsrw Gpr16, Memory");
    reach!("bsrw Gpr16, Memory");
}
fn m010_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btcl Memory, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btcl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xbb]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: btcl Memory, Gpr32");
    reach!("btcl Memory, Gpr32");
}
fn m010_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btcl Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btcl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xba]) }, opn: 2, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: btcl Memory, i8");
    reach!("btcl Memory, i8");
}
fn m010_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("btcq Memory, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btcq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xbb]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: btcq Memory, Gpr64");
    reach!("btcq Memory, Gpr64");
}
fn m011_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("btcq Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btcq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xba]) }, opn: 2, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: btcq Memory, i8");
    reach!("btcq Memory, i8");
}
fn m011_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btcw Memory, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btcw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xbb]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: btcw Memory, Gpr16");
    reach!("btcw Memory, Gpr16");
}
fn m011_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btcw Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btcw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xba]) }, opn: 2, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: btcw Memory, i8");
    reach!("btcw Memory, i8");
}
fn m011_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btl Memory, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xa3]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: btl Memory, Gpr32");
    reach!("btl Memory, Gpr32");
}
fn m011_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btl Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xba]) }, opn: 2, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: btl Memory, i8");
    reach!("btl Memory, i8");
}
fn m011_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("btq Memory, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xa3]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: btq Memory, Gpr64");
    reach!("btq Memory, Gpr64");
}
fn m012_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("btq Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xba]) }, opn: 2, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: btq Memory, i8");
    reach!("btq Memory, i8");
}
fn m012_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btrl Memory, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btrl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xb3]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: btrl Memory, Gpr32");
    reach!("btrl Memory, Gpr32");
}
fn m012_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btrl Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btrl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xba]) }, opn: 2, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: btrl Memory, i8");
    reach!("btrl Memory, i8");
}
fn m012_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("btrq Memory, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btrq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xb3]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: btrq Memory, Gpr64");
    reach!("btrq Memory, Gpr64");
}
fn m012_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("btrq Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btrq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xba]) }, opn: 2, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: btrq Memory, i8");
    reach!("btrq Memory, i8");
}
fn m012_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btrw Memory, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btrw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xb3]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: btrw Memory, Gpr16");
    reach!("btrw Memory, Gpr16");
}
fn m013_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btrw Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btrw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xba]) }, opn: 2, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: btrw Memory, i8");
    reach!("btrw Memory, i8");
}
fn m013_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btsl Memory, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btsl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xab]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: btsl Memory, Gpr32");
    reach!("btsl Memory, Gpr32");
}
fn m013_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btsl Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btsl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xba]) }, opn: 2, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: btsl Memory, i8");
    reach!("btsl Memory, i8");
}
fn m013_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("btsq Memory, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btsq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xab]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: btsq Memory, Gpr64");
    reach!("btsq Memory, Gpr64");
}
fn m013_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("btsq Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btsq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xba]) }, opn: 2, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: btsq Memory, i8");
    reach!("btsq Memory, i8");
}
fn m013_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btsw Memory, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btsw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xab]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: btsw Memory, Gpr16");
    reach!("btsw Memory, Gpr16");
}
fn m014_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btsw Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btsw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xba]) }, opn: 2, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: btsw Memory, i8");
    reach!("btsw Memory, i8");
}
fn m014_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btw Memory, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xa3]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: btw Memory, Gpr16");
    reach!("btw Memory, Gpr16");
}
fn m014_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("btw Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.btw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xba]) }, opn: 2, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: btw Memory, i8");
    reach!("btw Memory, i8");
}
fn m014_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("callq Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.callq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xff]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: callq Memory");
    reach!("callq Memory");
}
fn m014_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpb Gpr8, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x3a]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cmpb Gpr8, Memory");
    reach!("cmpb Gpr8, Memory");
}
fn m014_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpb Memory, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x38]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: cmpb Memory, Gpr8");
    reach!("cmpb Memory, Gpr8");
}
fn m015_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpb Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x80]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: cmpb Memory, i8");
    reach!("cmpb Memory, i8");
}
fn m015_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpl Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x3b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cmpl Gpr32, Memory");
    reach!("cmpl Gpr32, Memory");
}
fn m015_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpl Memory, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x39]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: cmpl Memory, Gpr32");
    reach!("cmpl Memory, Gpr32");
}
fn m015_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpl Memory, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: cmpl Memory, i32");
    reach!("cmpl Memory, i32");
}
fn m015_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpl Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: cmpl Memory, i8");
    reach!("cmpl Memory, i8");
}
fn m015_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmppd Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmppd(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xc2]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: cmppd Xmm, Memory, i8");
    reach!("cmppd Xmm, Memory, i8");
}
fn m016_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpps Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpps(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xc2]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: cmpps Xmm, Memory, i8");
    reach!("cmpps Xmm, Memory, i8");
}
fn m016_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("cmpq Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x3b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cmpq Gpr64, Memory");
    reach!("cmpq Gpr64, Memory");
}
fn m016_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("cmpq Memory, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x39]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: cmpq Memory, Gpr64");
    reach!("cmpq Memory, Gpr64");
}
fn m016_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("cmpq Memory, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x81]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: cmpq Memory, i32");
    reach!("cmpq Memory, i32");
}
fn m016_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("cmpq Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x83]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: cmpq Memory, i8");
    reach!("cmpq Memory, i8");
}
fn m016_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpsd Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpsd(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0xc2]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: cmpsd Xmm, Memory, i8");
    reach!("cmpsd Xmm, Memory, i8");
}
fn m017_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpss Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpss(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0xc2]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: cmpss Xmm, Memory, i8");
    reach!("cmpss Xmm, Memory, i8");
}
fn m017_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpw Gpr16, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x3b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cmpw Gpr16, Memory");
    reach!("cmpw Gpr16, Memory");
}
fn m017_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpw Memory, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x39]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: cmpw Memory, Gpr16");
    reach!("cmpw Memory, Gpr16");
}
fn m017_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpw Memory, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: cmpw Memory, i16");
    reach!("cmpw Memory, i16");
}
fn m017_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpw Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: cmpw Memory, i8");
    reach!("cmpw Memory, i8");
}
fn m017_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpxchgb Memory, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpxchgb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xb0]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: cmpxchgb Memory, Gpr8");
    reach!("cmpxchgb Memory, Gpr8");
}
fn m018_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpxchgl Memory, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpxchgl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xb1]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: cmpxchgl Memory, Gpr32");
    reach!("cmpxchgl Memory, Gpr32");
}
fn m018_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("cmpxchgq Memory, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpxchgq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xb1]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: cmpxchgq Memory, Gpr64");
    reach!("cmpxchgq Memory, Gpr64");
}
fn m018_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cmpxchgw Memory, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cmpxchgw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xb1]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: cmpxchgw Memory, Gpr16");
    reach!("cmpxchgw Memory, Gpr16");
}
fn m018_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("comisd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.comisd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x2f]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: comisd Xmm, Memory");
    reach!("comisd Xmm, Memory");
}
fn m018_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("comiss Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.comiss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x2f]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: comiss Xmm, Memory");
    reach!("comiss Xmm, Memory");
}
fn m018_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("crc32b Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.crc32b(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x38, 0xf0]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: crc32b Gpr32, Memory");
    reach!("crc32b Gpr32, Memory");
}
fn m019_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("crc32b Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.crc32b(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: true, op: const { op(&[0x0f, 0x38, 0xf0]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: crc32b Gpr64, Memory");
    reach!("crc32b Gpr64, Memory");
}
fn m019_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("crc32l Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.crc32l(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x38, 0xf1]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: crc32l Gpr32, Memory");
    reach!("crc32l Gpr32, Memory");
}
fn m019_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("crc32q Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.crc32q(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: true, op: const { op(&[0x0f, 0x38, 0xf1]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: crc32q Gpr64, Memory");
    reach!("crc32q Gpr64, Memory");
}
fn m019_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("crc32w Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.crc32w(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2, 0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0xf1]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: crc32w Gpr32, Memory");
    reach!("crc32w Gpr32, Memory");
}
fn m019_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvtdq2pd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtdq2pd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0xe6]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtdq2pd Xmm, Memory");
    reach!("cvtdq2pd Xmm, Memory");
}
fn m019_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvtdq2ps Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtdq2ps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x5b]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtdq2ps Xmm, Memory");
    reach!("cvtdq2ps Xmm, Memory");
}
fn m020_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvtpd2dq Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtpd2dq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0xe6]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtpd2dq Xmm, Memory");
    reach!("cvtpd2dq Xmm, Memory");
}
fn m020_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvtpd2ps Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtpd2ps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x5a]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtpd2ps Xmm, Memory");
    reach!("cvtpd2ps Xmm, Memory");
}
fn m020_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvtps2dq Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtps2dq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x5b]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtps2dq Xmm, Memory");
    reach!("cvtps2dq Xmm, Memory");
}
fn m020_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvtps2pd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtps2pd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x5a]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtps2pd Xmm, Memory");
    reach!("cvtps2pd Xmm, Memory");
}
fn m020_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvtsd2si Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtsd2si(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x2d]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtsd2si Gpr32, Memory");
    reach!("cvtsd2si Gpr32, Memory");
}
fn m020_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("cvtsd2si Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtsd2si(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: true, op: const { op(&[0x0f, 0x2d]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtsd2si Gpr64, Memory");
    reach!("cvtsd2si Gpr64, Memory");
}
fn m021_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvtsd2ss Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtsd2ss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x5a]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtsd2ss Xmm, Memory");
    reach!("cvtsd2ss Xmm, Memory");
}
fn m021_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvtsi2sdl Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtsi2sdl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x2a]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtsi2sdl Xmm, Memory");
    reach!("cvtsi2sdl Xmm, Memory");
}
fn m021_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("cvtsi2sdq Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtsi2sdq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: true, op: const { op(&[0x0f, 0x2a]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtsi2sdq Xmm, Memory");
    reach!("cvtsi2sdq Xmm, Memory");
}
fn m021_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvtsi2ssl Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtsi2ssl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x2a]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtsi2ssl Xmm, Memory");
    reach!("cvtsi2ssl Xmm, Memory");
}
fn m021_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("cvtsi2ssq Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtsi2ssq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: true, op: const { op(&[0x0f, 0x2a]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtsi2ssq Xmm, Memory");
    reach!("cvtsi2ssq Xmm, Memory");
}
fn m021_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvtss2sd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtss2sd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x5a]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtss2sd Xmm, Memory");
    reach!("cvtss2sd Xmm, Memory");
}
fn m022_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvtss2si Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtss2si(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x2d]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtss2si Gpr32, Memory");
    reach!("cvtss2si Gpr32, Memory");
}
fn m022_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("cvtss2si Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvtss2si(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: true, op: const { op(&[0x0f, 0x2d]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvtss2si Gpr64, Memory");
    reach!("cvtss2si Gpr64, Memory");
}
fn m022_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvttpd2dq Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvttpd2dq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xe6]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvttpd2dq Xmm, Memory");
    reach!("cvttpd2dq Xmm, Memory");
}
fn m022_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvttps2dq Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvttps2dq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x5b]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvttps2dq Xmm, Memory");
    reach!("cvttps2dq Xmm, Memory");
}
fn m022_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvttsd2si Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvttsd2si(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x2c]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvttsd2si Gpr32, Memory");
    reach!("cvttsd2si Gpr32, Memory");
}
fn m022_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("cvttsd2si Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvttsd2si(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: true, op: const { op(&[0x0f, 0x2c]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvttsd2si Gpr64, Memory");
    reach!("cvttsd2si Gpr64, Memory");
}
fn m023_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("cvttss2si Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvttss2si(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x2c]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvttss2si Gpr32, Memory");
    reach!("cvttss2si Gpr32, Memory");
}
fn m023_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("cvttss2si Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.cvttss2si(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: true, op: const { op(&[0x0f, 0x2c]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: cvttss2si Gpr64, Memory");
    reach!("cvttss2si Gpr64, Memory");
}
fn m023_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("decb Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.decb(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xfe]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: decb Memory");
    reach!("decb Memory");
}
fn m023_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("decl Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.decl(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xff]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: decl Memory");
    reach!("decl Memory");
}
fn m023_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("decq Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.decq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xff]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: decq Memory");
    reach!("decq Memory");
}
fn m023_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("decw Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.decw(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xff]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: decw Memory");
    reach!("decw Memory");
}
fn m024_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("divb Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.divb(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf6]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: divb Memory");
    reach!("divb Memory");
}
fn m024_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("divl Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.divl(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: divl Memory");
    reach!("divl Memory");
}
fn m024_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("divpd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.divpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x5e]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: divpd Xmm, Memory");
    reach!("divpd Xmm, Memory");
}
fn m024_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("divps Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.divps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x5e]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: divps Xmm, Memory");
    reach!("divps Xmm, Memory");
}
fn m024_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("divq Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.divq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xf7]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: divq Memory");
    reach!("divq Memory");
}
fn m024_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("divsd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.divsd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x5e]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: divsd Xmm, Memory");
    reach!("divsd Xmm, Memory");
}
fn m025_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("divss Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.divss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x5e]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: divss Xmm, Memory");
    reach!("divss Xmm, Memory");
}
fn m025_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("divw Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.divw(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: divw Memory");
    reach!("divw Memory");
}
fn m025_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("dppd Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.dppd(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x41]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: dppd Xmm, Memory, i8");
    reach!("dppd Xmm, Memory, i8");
}
fn m025_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("dpps Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.dpps(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x40]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: dpps Xmm, Memory, i8");
    reach!("dpps Xmm, Memory, i8");
}
fn m025_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("extractps Memory, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.extractps(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x17]) }, opn: 3, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: 2 }, &ops), "instruction encoding: extractps Memory, Xmm, i8");
    reach!("extractps Memory, Xmm, i8");
}
fn m025_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("idivb Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.idivb(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf6]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: idivb Memory");
    reach!("idivb Memory");
}
fn m026_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("idivl Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.idivl(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: idivl Memory");
    reach!("idivl Memory");
}
fn m026_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("idivq Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.idivq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xf7]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: idivq Memory");
    reach!("idivq Memory");
}
fn m026_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("idivw Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.idivw(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: idivw Memory");
    reach!("idivw Memory");
}
fn m026_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("imulb Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imulb(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf6]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: imulb Memory");
    reach!("imulb Memory");
}
fn m026_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i32(); let v2 = Opv::I32(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("imull Gpr32, Memory, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imull(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x69]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: imull Gpr32, Memory, i32");
    reach!("imull Gpr32, Memory, i32");
}
fn m026_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("imull Gpr32, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imull(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x6b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: imull Gpr32, Memory, i8");
    reach!("imull Gpr32, Memory, i8");
}
fn m027_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("imull1 Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imull1(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: imull1 Memory");
    reach!("imull1 Memory");
}
fn m027_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("imull2 Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imull2(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xaf]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: imull2 Gpr32, Memory");
    reach!("imull2 Gpr32, Memory");
}
fn m027_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i32(); let v2 = Opv::I32(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("imulq Gpr64, Memory, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imulq(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x69]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: imulq Gpr64, Memory, i32");
    reach!("imulq Gpr64, Memory, i32");
}
fn m027_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("imulq Gpr64, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imulq(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x6b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: imulq Gpr64, Memory, i8");
    reach!("imulq Gpr64, Memory, i8");
}
fn m027_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("imulq1 Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imulq1(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xf7]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: imulq1 Memory");
    reach!("imulq1 Memory");
}
fn m027_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("imulq2 Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imulq2(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xaf]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: imulq2 Gpr64, Memory");
    reach!("imulq2 Gpr64, Memory");
}
fn m028_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i16(); let v2 = Opv::I16(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("imulw Gpr16, Memory, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imulw(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x69]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: imulw Gpr16, Memory, i16");
    reach!("imulw Gpr16, Memory, i16");
}
fn m028_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("imulw Gpr16, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imulw(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x6b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: imulw Gpr16, Memory, i8");
    reach!("imulw Gpr16, Memory, i8");
}
fn m028_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("imulw1 Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imulw1(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: imulw1 Memory");
    reach!("imulw1 Memory");
}
fn m028_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("imulw2 Gpr16, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.imulw2(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xaf]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: imulw2 Gpr16, Memory");
    reach!("imulw2 Gpr16, Memory");
}
fn m028_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("incb Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.incb(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xfe]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: incb Memory");
    reach!("incb Memory");
}
fn m028_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("incl Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.incl(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xff]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: incl Memory");
    reach!("incl Memory");
}
fn m029_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("incq Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.incq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xff]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: incq Memory");
    reach!("incq Memory");
}
fn m029_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("incw Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.incw(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xff]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: incw Memory");
    reach!("incw Memory");
}
fn m029_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("insertps Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.insertps(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x21]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: insertps Xmm, Memory, i8");
    reach!("insertps Xmm, Memory, i8");
}
fn m029_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("invlpg Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.invlpg(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x01]) }, opn: 2, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: invlpg Memory");
    reach!("invlpg Memory");
}
fn m029_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("jmpq Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.jmpq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xff]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: jmpq Memory");
    reach!("jmpq Memory");
}
fn m029_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("ldmxcsr Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.ldmxcsr(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xae]) }, opn: 2, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: ldmxcsr Memory");
    reach!("ldmxcsr Memory");
}
fn m030_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("leal Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.leal(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x8d]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: leal Gpr32, Memory");
    reach!("leal Gpr32, Memory");
}
fn m030_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("leaq Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.leaq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x8d]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: leaq Gpr64, Memory");
    reach!("leaq Gpr64, Memory");
}
fn m030_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("leaw Gpr16, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.leaw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x8d]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: leaw Gpr16, Memory");
    reach!("leaw Gpr16, Memory");
}
fn m030_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("lmsw Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.lmsw(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x01]) }, opn: 2, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: lmsw Memory");
    reach!("lmsw Memory");
}
fn m030_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("maxpd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.maxpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x5f]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: maxpd Xmm, Memory");
    reach!("maxpd Xmm, Memory");
}
fn m030_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("maxps Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.maxps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x5f]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: maxps Xmm, Memory");
    reach!("maxps Xmm, Memory");
}
fn m031_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("maxsd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.maxsd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x5f]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: maxsd Xmm, Memory");
    reach!("maxsd Xmm, Memory");
}
fn m031_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("maxss Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.maxss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x5f]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: maxss Xmm, Memory");
    reach!("maxss Xmm, Memory");
}
fn m031_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("minpd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.minpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x5d]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: minpd Xmm, Memory");
    reach!("minpd Xmm, Memory");
}
fn m031_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("minps Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.minps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x5d]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: minps Xmm, Memory");
    reach!("minps Xmm, Memory");
}
fn m031_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("minsd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.minsd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x5d]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: minsd Xmm, Memory");
    reach!("minsd Xmm, Memory");
}
fn m031_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("minss Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.minss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x5d]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: minss Xmm, Memory");
    reach!("minss Xmm, Memory");
}
fn m032_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movapd Memory, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movapd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x29]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movapd Memory, Xmm");
    reach!("movapd Memory, Xmm");
}
fn m032_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movapd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movapd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x28]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movapd Xmm, Memory");
    reach!("movapd Xmm, Memory");
}
fn m032_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movaps Memory, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movaps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x29]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movaps Memory, Xmm");
    reach!("movaps Memory, Xmm");
}
fn m032_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movaps Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movaps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x28]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movaps Xmm, Memory");
    reach!("movaps Xmm, Memory");
}
fn m032_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movb Gpr8, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x8a]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movb Gpr8, Memory");
    reach!("movb Gpr8, Memory");
}
fn m032_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movb Memory, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x88]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movb Memory, Gpr8");
    reach!("movb Memory, Gpr8");
}
fn m033_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movb Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc6]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: movb Memory, i8");
    reach!("movb Memory, i8");
}
fn m033_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movd Memory, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x7e]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movd Memory, Xmm");
    reach!("movd Memory, Xmm");
}
fn m033_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x6e]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movd Xmm, Memory");
    reach!("movd Xmm, Memory");
}
fn m033_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movdqa Memory, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movdqa(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x7f]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movdqa Memory, Xmm");
    reach!("movdqa Memory, Xmm");
}
fn m033_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movdqa Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movdqa(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x6f]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movdqa Xmm, Memory");
    reach!("movdqa Xmm, Memory");
}
fn m033_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movdqu Memory, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movdqu(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x7f]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movdqu Memory, Xmm");
    reach!("movdqu Memory, Xmm");
}
fn m034_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movdqu Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movdqu(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x6f]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movdqu Xmm, Memory");
    reach!("movdqu Xmm, Memory");
}
fn m034_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movhpd Memory, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movhpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x17]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movhpd Memory, Xmm");
    reach!("movhpd Memory, Xmm");
}
fn m034_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movhpd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movhpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x16]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movhpd Xmm, Memory");
    reach!("movhpd Xmm, Memory");
}
fn m034_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movhps Memory, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movhps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x17]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movhps Memory, Xmm");
    reach!("movhps Memory, Xmm");
}
fn m034_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movhps Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movhps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x16]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movhps Xmm, Memory");
    reach!("movhps Xmm, Memory");
}
fn m034_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movl Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x8b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movl Gpr32, Memory");
    reach!("movl Gpr32, Memory");
}
fn m035_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movl Memory, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x89]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movl Memory, Gpr32");
    reach!("movl Memory, Gpr32");
}
fn m035_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movl Memory, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc7]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: movl Memory, i32");
    reach!("movl Memory, i32");
}
fn m035_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movlpd Memory, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movlpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x13]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movlpd Memory, Xmm");
    reach!("movlpd Memory, Xmm");
}
fn m035_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movlpd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movlpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x12]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movlpd Xmm, Memory");
    reach!("movlpd Xmm, Memory");
}
fn m035_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movlps Memory, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movlps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x13]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movlps Memory, Xmm");
    reach!("movlps Memory, Xmm");
}
fn m035_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movlps Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movlps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x12]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movlps Xmm, Memory");
    reach!("movlps Xmm, Memory");
}
fn m036_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movntdq Memory, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movntdq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xe7]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movntdq Memory, Xmm");
    reach!("movntdq Memory, Xmm");
}
fn m036_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movntdqa Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movntdqa(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x2a]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movntdqa Xmm, Memory");
    reach!("movntdqa Xmm, Memory");
}
fn m036_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movnti Memory, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movnti(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xc3]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movnti Memory, Gpr32");
    reach!("movnti Memory, Gpr32");
}
fn m036_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("movnti Memory, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movnti(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xc3]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movnti Memory, Gpr64");
    reach!("movnti Memory, Gpr64");
}
fn m036_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movntpd Memory, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movntpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x2b]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movntpd Memory, Xmm");
    reach!("movntpd Memory, Xmm");
}
fn m036_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movntps Memory, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movntps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x2b]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movntps Memory, Xmm");
    reach!("movntps Memory, Xmm");
}
fn m037_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("movq Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x8b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movq Gpr64, Memory");
    reach!("movq Gpr64, Memory");
}
fn m037_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("movq Memory, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x89]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movq Memory, Gpr64");
    reach!("movq Memory, Gpr64");
}
fn m037_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("movq Memory, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: true, op: const { op(&[0x0f, 0x7e]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xd6]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movq Memory, Xmm");
    reach!("movq Memory, Xmm");
}
fn m037_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("movq Memory, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xc7]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: movq Memory, i32");
    reach!("movq Memory, i32");
}
fn m037_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("movq Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: true, op: const { op(&[0x0f, 0x6e]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops) || decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x7e]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movq Xmm, Memory");
    reach!("movq Xmm, Memory");
}
fn m037_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movsbl Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movsbl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xbe]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movsbl Gpr32, Memory");
    reach!("movsbl Gpr32, Memory");
}
fn m038_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("movsbq Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movsbq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xbe]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movsbq Gpr64, Memory");
    reach!("movsbq Gpr64, Memory");
}
fn m038_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movsbw Gpr16, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movsbw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xbe]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movsbw Gpr16, Memory");
    reach!("movsbw Gpr16, Memory");
}
fn m038_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movsd Memory, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movsd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x11]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movsd Memory, Xmm");
    reach!("movsd Memory, Xmm");
}
fn m038_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movsd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movsd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x10]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movsd Xmm, Memory");
    reach!("movsd Xmm, Memory");
}
fn m038_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("movslq Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movslq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x63]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movslq Gpr64, Memory");
    reach!("movslq Gpr64, Memory");
}
fn m038_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movss Memory, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x11]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movss Memory, Xmm");
    reach!("movss Memory, Xmm");
}
fn m039_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movss Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x10]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movss Xmm, Memory");
    reach!("movss Xmm, Memory");
}
fn m039_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movswl Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movswl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xbf]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movswl Gpr32, Memory");
    reach!("movswl Gpr32, Memory");
}
fn m039_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("movswq Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movswq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xbf]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movswq Gpr64, Memory");
    reach!("movswq Gpr64, Memory");
}
fn m039_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movupd Memory, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movupd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x11]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movupd Memory, Xmm");
    reach!("movupd Memory, Xmm");
}
fn m039_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movupd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movupd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x10]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movupd Xmm, Memory");
    reach!("movupd Xmm, Memory");
}
fn m039_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movups Memory, Xmm {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movups(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x11]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movups Memory, Xmm");
    reach!("movups Memory, Xmm");
}
fn m040_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movups Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movups(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x10]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movups Xmm, Memory");
    reach!("movups Xmm, Memory");
}
fn m040_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movw Gpr16, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x8b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movw Gpr16, Memory");
    reach!("movw Gpr16, Memory");
}
fn m040_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movw Memory, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x89]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: movw Memory, Gpr16");
    reach!("movw Memory, Gpr16");
}
fn m040_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movw Memory, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xc7]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: movw Memory, i16");
    reach!("movw Memory, i16");
}
fn m040_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movzbl Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movzbl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xb6]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movzbl Gpr32, Memory");
    reach!("movzbl Gpr32, Memory");
}
fn m040_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("movzbq Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movzbq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xb6]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movzbq Gpr64, Memory");
    reach!("movzbq Gpr64, Memory");
}
fn m041_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movzbw Gpr16, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movzbw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xb6]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movzbw Gpr16, Memory");
    reach!("movzbw Gpr16, Memory");
}
fn m041_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("movzwl Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movzwl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xb7]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movzwl Gpr32, Memory");
    reach!("movzwl Gpr32, Memory");
}
fn m041_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("movzwq Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.movzwq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xb7]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: movzwq Gpr64, Memory");
    reach!("movzwq Gpr64, Memory");
}
fn m041_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("mpsadbw Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.mpsadbw(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x42]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: mpsadbw Xmm, Memory, i8");
    reach!("mpsadbw Xmm, Memory, i8");
}
fn m041_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("mulb Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.mulb(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf6]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: mulb Memory");
    reach!("mulb Memory");
}
fn m041_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("mull Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.mull(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: mull Memory");
    reach!("mull Memory");
}
fn m042_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("mulpd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.mulpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x59]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: mulpd Xmm, Memory");
    reach!("mulpd Xmm, Memory");
}
fn m042_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("mulps Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.mulps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x59]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: mulps Xmm, Memory");
    reach!("mulps Xmm, Memory");
}
fn m042_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("mulq Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.mulq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xf7]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: mulq Memory");
    reach!("mulq Memory");
}
fn m042_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("mulsd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.mulsd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x59]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: mulsd Xmm, Memory");
    reach!("mulsd Xmm, Memory");
}
fn m042_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("mulss Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.mulss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x59]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: mulss Xmm, Memory");
    reach!("mulss Xmm, Memory");
}
fn m042_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("mulw Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.mulw(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: mulw Memory");
    reach!("mulw Memory");
}
fn m043_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("negb Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.negb(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf6]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: negb Memory");
    reach!("negb Memory");
}
fn m043_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("negl Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.negl(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: negl Memory");
    reach!("negl Memory");
}
fn m043_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("negq Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.negq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xf7]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: negq Memory");
    reach!("negq Memory");
}
fn m043_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("negw Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.negw(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: negw Memory");
    reach!("negw Memory");
}
fn m043_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("notb Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.notb(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf6]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: notb Memory");
    reach!("notb Memory");
}
fn m043_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("notl Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.notl(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: notl Memory");
    reach!("notl Memory");
}
fn m044_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("notq Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.notq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xf7]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: notq Memory");
    reach!("notq Memory");
}
fn m044_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("notw Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.notw(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: notw Memory");
    reach!("notw Memory");
}
fn m044_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orb Gpr8, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0a]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: orb Gpr8, Memory");
    reach!("orb Gpr8, Memory");
}
fn m044_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orb Memory, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x08]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: orb Memory, Gpr8");
    reach!("orb Memory, Gpr8");
}
fn m044_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orb Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x80]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: orb Memory, i8");
    reach!("orb Memory, i8");
}
fn m044_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orl Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: orl Gpr32, Memory");
    reach!("orl Gpr32, Memory");
}
fn m045_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orl Memory, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x09]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: orl Memory, Gpr32");
    reach!("orl Memory, Gpr32");
}
fn m045_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orl Memory, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: orl Memory, i32");
    reach!("orl Memory, i32");
}
fn m045_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orl Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: orl Memory, i8");
    reach!("orl Memory, i8");
}
fn m045_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orpd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x56]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: orpd Xmm, Memory");
    reach!("orpd Xmm, Memory");
}
fn m045_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orps Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x56]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: orps Xmm, Memory");
    reach!("orps Xmm, Memory");
}
fn m045_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("orq Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: orq Gpr64, Memory");
    reach!("orq Gpr64, Memory");
}
fn m046_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("orq Memory, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x09]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: orq Memory, Gpr64");
    reach!("orq Memory, Gpr64");
}
fn m046_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("orq Memory, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x81]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: orq Memory, i32");
    reach!("orq Memory, i32");
}
fn m046_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("orq Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x83]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: orq Memory, i8");
    reach!("orq Memory, i8");
}
fn m046_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orw Gpr16, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: orw Gpr16, Memory");
    reach!("orw Gpr16, Memory");
}
fn m046_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orw Memory, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x09]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: orw Memory, Gpr16");
    reach!("orw Memory, Gpr16");
}
fn m046_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orw Memory, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: orw Memory, i16");
    reach!("orw Memory, i16");
}
fn m047_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("orw Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.orw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: orw Memory, i8");
    reach!("orw Memory, i8");
}
fn m047_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("packssdw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.packssdw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x6b]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: packssdw Xmm, Memory");
    reach!("packssdw Xmm, Memory");
}
fn m047_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("packsswb Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.packsswb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x63]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: packsswb Xmm, Memory");
    reach!("packsswb Xmm, Memory");
}
fn m047_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("packusdw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.packusdw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x2b]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: packusdw Xmm, Memory");
    reach!("packusdw Xmm, Memory");
}
fn m047_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("packuswb Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.packuswb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x67]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: packuswb Xmm, Memory");
    reach!("packuswb Xmm, Memory");
}
fn m047_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("paddb Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.paddb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xfc]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: paddb Xmm, Memory");
    reach!("paddb Xmm, Memory");
}
fn m048_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("paddd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.paddd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xfe]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: paddd Xmm, Memory");
    reach!("paddd Xmm, Memory");
}
fn m048_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("paddq Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.paddq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xd4]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: paddq Xmm, Memory");
    reach!("paddq Xmm, Memory");
}
fn m048_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("paddsb Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.paddsb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xec]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: paddsb Xmm, Memory");
    reach!("paddsb Xmm, Memory");
}
fn m048_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("paddsw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.paddsw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xed]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: paddsw Xmm, Memory");
    reach!("paddsw Xmm, Memory");
}
fn m048_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("paddusb Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.paddusb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xdc]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: paddusb Xmm, Memory");
    reach!("paddusb Xmm, Memory");
}
fn m048_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("paddusw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.paddusw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xdd]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: paddusw Xmm, Memory");
    reach!("paddusw Xmm, Memory");
}
fn m049_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("paddw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.paddw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xfd]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: paddw Xmm, Memory");
    reach!("paddw Xmm, Memory");
}
fn m049_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pand Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pand(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xdb]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pand Xmm, Memory");
    reach!("pand Xmm, Memory");
}
fn m049_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pandn Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pandn(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xdf]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pandn Xmm, Memory");
    reach!("pandn Xmm, Memory");
}
fn m049_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pavgb Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pavgb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xe0]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pavgb Xmm, Memory");
    reach!("pavgb Xmm, Memory");
}
fn m049_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pavgw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pavgw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xe3]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pavgw Xmm, Memory");
    reach!("pavgw Xmm, Memory");
}
fn m049_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = _Xmm0; let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pblendvb Xmm, Memory, _Xmm0 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pblendvb(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x10]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pblendvb Xmm, Memory, _Xmm0");
    reach!("pblendvb Xmm, Memory, _Xmm0");
}
fn m050_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pblendw Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pblendw(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x0e]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: pblendw Xmm, Memory, i8");
    reach!("pblendw Xmm, Memory, i8");
}
fn m050_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pcmpeqb Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pcmpeqb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x74]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pcmpeqb Xmm, Memory");
    reach!("pcmpeqb Xmm, Memory");
}
fn m050_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pcmpeqd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pcmpeqd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x76]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pcmpeqd Xmm, Memory");
    reach!("pcmpeqd Xmm, Memory");
}
fn m050_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pcmpeqq Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pcmpeqq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x29]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pcmpeqq Xmm, Memory");
    reach!("pcmpeqq Xmm, Memory");
}
fn m050_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pcmpeqw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pcmpeqw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x75]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pcmpeqw Xmm, Memory");
    reach!("pcmpeqw Xmm, Memory");
}
fn m050_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pcmpestri Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pcmpestri(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x61]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: pcmpestri Xmm, Memory, i8");
    reach!("pcmpestri Xmm, Memory, i8");
}
fn m051_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pcmpestrm Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pcmpestrm(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x60]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: pcmpestrm Xmm, Memory, i8");
    reach!("pcmpestrm Xmm, Memory, i8");
}
fn m051_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pcmpgtb Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pcmpgtb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x64]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pcmpgtb Xmm, Memory");
    reach!("pcmpgtb Xmm, Memory");
}
fn m051_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pcmpgtd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pcmpgtd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x66]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pcmpgtd Xmm, Memory");
    reach!("pcmpgtd Xmm, Memory");
}
fn m051_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pcmpgtq Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pcmpgtq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x37]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pcmpgtq Xmm, Memory");
    reach!("pcmpgtq Xmm, Memory");
}
fn m051_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pcmpgtw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pcmpgtw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x65]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pcmpgtw Xmm, Memory");
    reach!("pcmpgtw Xmm, Memory");
}
fn m051_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pcmpistri Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pcmpistri(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x63]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: pcmpistri Xmm, Memory, i8");
    reach!("pcmpistri Xmm, Memory, i8");
}
fn m052_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pcmpistrm Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pcmpistrm(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x62]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: pcmpistrm Xmm, Memory, i8");
    reach!("pcmpistrm Xmm, Memory, i8");
}
fn m052_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pextrb Memory, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pextrb(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x14]) }, opn: 3, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: 2 }, &ops), "instruction encoding: pextrb Memory, Xmm, i8");
    reach!("pextrb Memory, Xmm, i8");
}
fn m052_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pextrd Memory, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pextrd(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x16]) }, opn: 3, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: 2 }, &ops), "instruction encoding: pextrd Memory, Xmm, i8");
    reach!("pextrd Memory, Xmm, i8");
}
fn m052_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("pextrq Memory, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pextrq(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: true, op: const { op(&[0x0f, 0x3a, 0x16]) }, opn: 3, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: 2 }, &ops), "instruction encoding: pextrq Memory, Xmm, i8");
    reach!("pextrq Memory, Xmm, i8");
}
fn m052_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = xmm_of(c1); let v1 = Opv::X(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pextrw Memory, Xmm, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pextrw(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x15]) }, opn: 3, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: 2 }, &ops), "instruction encoding: pextrw Memory, Xmm, i8");
    reach!("pextrw Memory, Xmm, i8");
}
fn m052_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("phminposuw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.phminposuw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x41]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: phminposuw Xmm, Memory");
    reach!("phminposuw Xmm, Memory");
}
fn m053_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pinsrb Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pinsrb(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x20]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: pinsrb Xmm, Memory, i8");
    reach!("pinsrb Xmm, Memory, i8");
}
fn m053_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pinsrd Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pinsrd(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x22]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: pinsrd Xmm, Memory, i8");
    reach!("pinsrd Xmm, Memory, i8");
}
fn m053_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pinsrw Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pinsrw(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xc4]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: pinsrw Xmm, Memory, i8");
    reach!("pinsrw Xmm, Memory, i8");
}
fn m053_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmaddwd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmaddwd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xf5]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmaddwd Xmm, Memory");
    reach!("pmaddwd Xmm, Memory");
}
fn m053_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmaxsb Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmaxsb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x3c]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmaxsb Xmm, Memory");
    reach!("pmaxsb Xmm, Memory");
}
fn m053_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmaxsd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmaxsd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x3d]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmaxsd Xmm, Memory");
    reach!("pmaxsd Xmm, Memory");
}
fn m054_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmaxsw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmaxsw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xee]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmaxsw Xmm, Memory");
    reach!("pmaxsw Xmm, Memory");
}
fn m054_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmaxub Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmaxub(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xde]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmaxub Xmm, Memory");
    reach!("pmaxub Xmm, Memory");
}
fn m054_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmaxud Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmaxud(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x3f]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmaxud Xmm, Memory");
    reach!("pmaxud Xmm, Memory");
}
fn m054_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmaxuw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmaxuw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x3e]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmaxuw Xmm, Memory");
    reach!("pmaxuw Xmm, Memory");
}
fn m054_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pminsb Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pminsb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x38]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pminsb Xmm, Memory");
    reach!("pminsb Xmm, Memory");
}
fn m054_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pminsd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pminsd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x39]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pminsd Xmm, Memory");
    reach!("pminsd Xmm, Memory");
}
fn m055_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pminsw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pminsw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xea]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pminsw Xmm, Memory");
    reach!("pminsw Xmm, Memory");
}
fn m055_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pminub Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pminub(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xda]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pminub Xmm, Memory");
    reach!("pminub Xmm, Memory");
}
fn m055_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pminud Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pminud(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x3b]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pminud Xmm, Memory");
    reach!("pminud Xmm, Memory");
}
fn m055_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pminuw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pminuw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x3a]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pminuw Xmm, Memory");
    reach!("pminuw Xmm, Memory");
}
fn m055_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmovsxbd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmovsxbd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x21]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmovsxbd Xmm, Memory");
    reach!("pmovsxbd Xmm, Memory");
}
fn m055_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmovsxbq Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmovsxbq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x22]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmovsxbq Xmm, Memory");
    reach!("pmovsxbq Xmm, Memory");
}
fn m056_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmovsxbw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmovsxbw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x20]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmovsxbw Xmm, Memory");
    reach!("pmovsxbw Xmm, Memory");
}
fn m056_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmovsxdq Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmovsxdq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x25]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmovsxdq Xmm, Memory");
    reach!("pmovsxdq Xmm, Memory");
}
fn m056_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmovsxwd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmovsxwd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x23]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmovsxwd Xmm, Memory");
    reach!("pmovsxwd Xmm, Memory");
}
fn m056_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmovsxwq Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmovsxwq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x24]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmovsxwq Xmm, Memory");
    reach!("pmovsxwq Xmm, Memory");
}
fn m056_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmovzxbd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmovzxbd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x31]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmovzxbd Xmm, Memory");
    reach!("pmovzxbd Xmm, Memory");
}
fn m056_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmovzxbq Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmovzxbq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x32]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmovzxbq Xmm, Memory");
    reach!("pmovzxbq Xmm, Memory");
}
fn m057_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmovzxbw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmovzxbw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x30]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmovzxbw Xmm, Memory");
    reach!("pmovzxbw Xmm, Memory");
}
fn m057_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmovzxdq Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmovzxdq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x35]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmovzxdq Xmm, Memory");
    reach!("pmovzxdq Xmm, Memory");
}
fn m057_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmovzxwd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmovzxwd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x33]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmovzxwd Xmm, Memory");
    reach!("pmovzxwd Xmm, Memory");
}
fn m057_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmovzxwq Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmovzxwq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x34]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmovzxwq Xmm, Memory");
    reach!("pmovzxwq Xmm, Memory");
}
fn m057_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmuldq Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmuldq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x28]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmuldq Xmm, Memory");
    reach!("pmuldq Xmm, Memory");
}
fn m057_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmulhuw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmulhuw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xe4]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmulhuw Xmm, Memory");
    reach!("pmulhuw Xmm, Memory");
}
fn m058_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmulhw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmulhw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xe5]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmulhw Xmm, Memory");
    reach!("pmulhw Xmm, Memory");
}
fn m058_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmulld Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmulld(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x40]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmulld Xmm, Memory");
    reach!("pmulld Xmm, Memory");
}
fn m058_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmullw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmullw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xd5]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmullw Xmm, Memory");
    reach!("pmullw Xmm, Memory");
}
fn m058_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pmuludq Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pmuludq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xf4]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pmuludq Xmm, Memory");
    reach!("pmuludq Xmm, Memory");
}
fn m058_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("popcntl Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.popcntl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0xb8]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: popcntl Gpr32, Memory");
    reach!("popcntl Gpr32, Memory");
}
fn m058_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("popcntq Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.popcntq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: true, op: const { op(&[0x0f, 0xb8]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: popcntq Gpr64, Memory");
    reach!("popcntq Gpr64, Memory");
}
fn m059_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("popcntw Gpr16, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.popcntw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3, 0x66]) }, w: false, op: const { op(&[0x0f, 0xb8]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: popcntw Gpr16, Memory");
    reach!("popcntw Gpr16, Memory");
}
fn m059_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("popq Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.popq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x8f]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: popq Memory");
    reach!("popq Memory");
}
fn m059_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("popw Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.popw(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x8f]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: popw Memory");
    reach!("popw Memory");
}
fn m059_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("por Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.por(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xeb]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: por Xmm, Memory");
    reach!("por Xmm, Memory");
}
fn m059_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psadbw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psadbw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xf6]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psadbw Xmm, Memory");
    reach!("psadbw Xmm, Memory");
}
fn m059_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pshufd Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pshufd(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x70]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: pshufd Xmm, Memory, i8");
    reach!("pshufd Xmm, Memory, i8");
}
fn m060_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pshufhw Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pshufhw(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x70]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: pshufhw Xmm, Memory, i8");
    reach!("pshufhw Xmm, Memory, i8");
}
fn m060_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pshuflw Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pshuflw(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x70]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: pshuflw Xmm, Memory, i8");
    reach!("pshuflw Xmm, Memory, i8");
}
fn m060_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pslld Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pslld(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xf2]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pslld Xmm, Memory");
    reach!("pslld Xmm, Memory");
}
fn m060_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psllq Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psllq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xf3]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psllq Xmm, Memory");
    reach!("psllq Xmm, Memory");
}
fn m060_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psllw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psllw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xf1]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psllw Xmm, Memory");
    reach!("psllw Xmm, Memory");
}
fn m060_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psrad Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psrad(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xe2]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psrad Xmm, Memory");
    reach!("psrad Xmm, Memory");
}
fn m061_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psraw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psraw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xe1]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psraw Xmm, Memory");
    reach!("psraw Xmm, Memory");
}
fn m061_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psrld Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psrld(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xd2]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psrld Xmm, Memory");
    reach!("psrld Xmm, Memory");
}
fn m061_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psrlq Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psrlq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xd3]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psrlq Xmm, Memory");
    reach!("psrlq Xmm, Memory");
}
fn m061_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psrlw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psrlw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xd1]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psrlw Xmm, Memory");
    reach!("psrlw Xmm, Memory");
}
fn m061_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psubb Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psubb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xf8]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psubb Xmm, Memory");
    reach!("psubb Xmm, Memory");
}
fn m061_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psubd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psubd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xfa]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psubd Xmm, Memory");
    reach!("psubd Xmm, Memory");
}
fn m062_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psubq Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psubq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xfb]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psubq Xmm, Memory");
    reach!("psubq Xmm, Memory");
}
fn m062_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psubsb Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psubsb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xe8]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psubsb Xmm, Memory");
    reach!("psubsb Xmm, Memory");
}
fn m062_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psubsw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psubsw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xe9]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psubsw Xmm, Memory");
    reach!("psubsw Xmm, Memory");
}
fn m062_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psubusb Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psubusb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xd8]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psubusb Xmm, Memory");
    reach!("psubusb Xmm, Memory");
}
fn m062_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psubusw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psubusw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xd9]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psubusw Xmm, Memory");
    reach!("psubusw Xmm, Memory");
}
fn m062_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("psubw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.psubw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xf9]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: psubw Xmm, Memory");
    reach!("psubw Xmm, Memory");
}
fn m063_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("ptest Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.ptest(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x38, 0x17]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: ptest Xmm, Memory");
    reach!("ptest Xmm, Memory");
}
fn m063_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("punpckhbw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.punpckhbw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x68]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: punpckhbw Xmm, Memory");
    reach!("punpckhbw Xmm, Memory");
}
fn m063_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("punpckhdq Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.punpckhdq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x6a]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: punpckhdq Xmm, Memory");
    reach!("punpckhdq Xmm, Memory");
}
fn m063_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("punpckhqdq Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.punpckhqdq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x6d]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: punpckhqdq Xmm, Memory");
    reach!("punpckhqdq Xmm, Memory");
}
fn m063_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("punpckhwd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.punpckhwd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x69]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: punpckhwd Xmm, Memory");
    reach!("punpckhwd Xmm, Memory");
}
fn m063_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("punpcklbw Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.punpcklbw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x60]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: punpcklbw Xmm, Memory");
    reach!("punpcklbw Xmm, Memory");
}
fn m064_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("punpckldq Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.punpckldq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x62]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: punpckldq Xmm, Memory");
    reach!("punpckldq Xmm, Memory");
}
fn m064_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("punpcklqdq Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.punpcklqdq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x6c]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: punpcklqdq Xmm, Memory");
    reach!("punpcklqdq Xmm, Memory");
}
fn m064_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("punpcklwd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.punpcklwd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x61]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: punpcklwd Xmm, Memory");
    reach!("punpcklwd Xmm, Memory");
}
fn m064_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pushq Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pushq(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xff]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: pushq Memory");
    reach!("pushq Memory");
}
fn m064_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pushw Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pushw(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xff]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: pushw Memory");
    reach!("pushw Memory");
}
fn m064_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("pxor Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.pxor(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xef]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: pxor Xmm, Memory");
    reach!("pxor Xmm, Memory");
}
fn m065_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rclb Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rclb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd0]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rclb Memory, _1");
    reach!("rclb Memory, _1");
}
fn m065_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rclb Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rclb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd2]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rclb Memory, _Cl");
    reach!("rclb Memory, _Cl");
}
fn m065_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rclb Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rclb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc0]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rclb Memory, i8");
    reach!("rclb Memory, i8");
}
fn m065_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcll Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcll(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rcll Memory, _1");
    reach!("rcll Memory, _1");
}
fn m065_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcll Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcll(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rcll Memory, _Cl");
    reach!("rcll Memory, _Cl");
}
fn m065_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcll Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcll(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rcll Memory, i8");
    reach!("rcll Memory, i8");
}
fn m066_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("rclq Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rclq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd1]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rclq Memory, _1");
    reach!("rclq Memory, _1");
}
fn m066_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("rclq Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rclq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd3]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rclq Memory, _Cl");
    reach!("rclq Memory, _Cl");
}
fn m066_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("rclq Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rclq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xc1]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rclq Memory, i8");
    reach!("rclq Memory, i8");
}
fn m066_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rclw Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rclw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rclw Memory, _1");
    reach!("rclw Memory, _1");
}
fn m066_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rclw Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rclw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rclw Memory, _Cl");
    reach!("rclw Memory, _Cl");
}
fn m066_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rclw Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rclw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 2, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rclw Memory, i8");
    reach!("rclw Memory, i8");
}
fn m067_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcpps Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcpps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x53]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: rcpps Xmm, Memory");
    reach!("rcpps Xmm, Memory");
}
fn m067_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcpss Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcpss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x53]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: rcpss Xmm, Memory");
    reach!("rcpss Xmm, Memory");
}
fn m067_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcrb Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcrb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd0]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rcrb Memory, _1");
    reach!("rcrb Memory, _1");
}
fn m067_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcrb Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcrb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd2]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rcrb Memory, _Cl");
    reach!("rcrb Memory, _Cl");
}
fn m067_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcrb Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcrb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc0]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rcrb Memory, i8");
    reach!("rcrb Memory, i8");
}
fn m067_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcrl Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcrl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rcrl Memory, _1");
    reach!("rcrl Memory, _1");
}
fn m068_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcrl Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcrl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rcrl Memory, _Cl");
    reach!("rcrl Memory, _Cl");
}
fn m068_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcrl Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcrl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rcrl Memory, i8");
    reach!("rcrl Memory, i8");
}
fn m068_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("rcrq Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcrq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd1]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rcrq Memory, _1");
    reach!("rcrq Memory, _1");
}
fn m068_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("rcrq Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcrq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd3]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rcrq Memory, _Cl");
    reach!("rcrq Memory, _Cl");
}
fn m068_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("rcrq Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcrq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xc1]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rcrq Memory, i8");
    reach!("rcrq Memory, i8");
}
fn m068_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcrw Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcrw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rcrw Memory, _1");
    reach!("rcrw Memory, _1");
}
fn m069_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcrw Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcrw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rcrw Memory, _Cl");
    reach!("rcrw Memory, _Cl");
}
fn m069_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rcrw Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rcrw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rcrw Memory, i8");
    reach!("rcrw Memory, i8");
}
fn m069_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rolb Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rolb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd0]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rolb Memory, _1");
    reach!("rolb Memory, _1");
}
fn m069_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rolb Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rolb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd2]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rolb Memory, _Cl");
    reach!("rolb Memory, _Cl");
}
fn m069_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rolb Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rolb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc0]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rolb Memory, i8");
    reach!("rolb Memory, i8");
}
fn m069_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("roll Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.roll(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: roll Memory, _1");
    reach!("roll Memory, _1");
}
fn m070_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("roll Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.roll(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: roll Memory, _Cl");
    reach!("roll Memory, _Cl");
}
fn m070_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("roll Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.roll(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: roll Memory, i8");
    reach!("roll Memory, i8");
}
fn m070_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("rolq Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rolq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd1]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rolq Memory, _1");
    reach!("rolq Memory, _1");
}
fn m070_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("rolq Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rolq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd3]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rolq Memory, _Cl");
    reach!("rolq Memory, _Cl");
}
fn m070_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("rolq Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rolq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xc1]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rolq Memory, i8");
    reach!("rolq Memory, i8");
}
fn m070_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rolw Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rolw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rolw Memory, _1");
    reach!("rolw Memory, _1");
}
fn m071_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rolw Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rolw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rolw Memory, _Cl");
    reach!("rolw Memory, _Cl");
}
fn m071_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rolw Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rolw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rolw Memory, i8");
    reach!("rolw Memory, i8");
}
fn m071_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rorb Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rorb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd0]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rorb Memory, _1");
    reach!("rorb Memory, _1");
}
fn m071_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rorb Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rorb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd2]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rorb Memory, _Cl");
    reach!("rorb Memory, _Cl");
}
fn m071_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rorb Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rorb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc0]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rorb Memory, i8");
    reach!("rorb Memory, i8");
}
fn m071_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rorl Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rorl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rorl Memory, _1");
    reach!("rorl Memory, _1");
}
fn m072_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rorl Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rorl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rorl Memory, _Cl");
    reach!("rorl Memory, _Cl");
}
fn m072_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rorl Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rorl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rorl Memory, i8");
    reach!("rorl Memory, i8");
}
fn m072_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("rorq Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rorq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd1]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rorq Memory, _1");
    reach!("rorq Memory, _1");
}
fn m072_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("rorq Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rorq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd3]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rorq Memory, _Cl");
    reach!("rorq Memory, _Cl");
}
fn m072_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("rorq Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rorq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xc1]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rorq Memory, i8");
    reach!("rorq Memory, i8");
}
fn m072_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rorw Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rorw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rorw Memory, _1");
    reach!("rorw Memory, _1");
}
fn m073_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rorw Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rorw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: rorw Memory, _Cl");
    reach!("rorw Memory, _Cl");
}
fn m073_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rorw Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rorw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: rorw Memory, i8");
    reach!("rorw Memory, i8");
}
fn m073_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("roundpd Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.roundpd(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x09]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: roundpd Xmm, Memory, i8");
    reach!("roundpd Xmm, Memory, i8");
}
fn m073_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("roundps Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.roundps(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x08]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: roundps Xmm, Memory, i8");
    reach!("roundps Xmm, Memory, i8");
}
fn m073_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("roundsd Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.roundsd(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x0b]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: roundsd Xmm, Memory, i8");
    reach!("roundsd Xmm, Memory, i8");
}
fn m073_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("roundss Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.roundss(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x3a, 0x0a]) }, opn: 3, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: roundss Xmm, Memory, i8");
    reach!("roundss Xmm, Memory, i8");
}
fn m074_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rsqrtps Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rsqrtps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x52]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: rsqrtps Xmm, Memory");
    reach!("rsqrtps Xmm, Memory");
}
fn m074_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("rsqrtss Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.rsqrtss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x52]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: rsqrtss Xmm, Memory");
    reach!("rsqrtss Xmm, Memory");
}
fn m074_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("salb Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.salb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd0]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: salb Memory, _1");
    reach!("salb Memory, _1");
}
fn m074_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("salb Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.salb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd2]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: salb Memory, _Cl");
    reach!("salb Memory, _Cl");
}
fn m074_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("salb Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.salb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc0]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: salb Memory, i8");
    reach!("salb Memory, i8");
}
fn m074_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sall Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sall(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sall Memory, _1");
    reach!("sall Memory, _1");
}
fn m075_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sall Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sall(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sall Memory, _Cl");
    reach!("sall Memory, _Cl");
}
fn m075_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sall Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sall(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: sall Memory, i8");
    reach!("sall Memory, i8");
}
fn m075_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("salq Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.salq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd1]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: salq Memory, _1");
    reach!("salq Memory, _1");
}
fn m075_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("salq Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.salq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd3]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: salq Memory, _Cl");
    reach!("salq Memory, _Cl");
}
fn m075_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("salq Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.salq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xc1]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: salq Memory, i8");
    reach!("salq Memory, i8");
}
fn m075_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("salw Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.salw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: salw Memory, _1");
    reach!("salw Memory, _1");
}
fn m076_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("salw Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.salw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: salw Memory, _Cl");
    reach!("salw Memory, _Cl");
}
fn m076_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("salw Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.salw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: salw Memory, i8");
    reach!("salw Memory, i8");
}
fn m076_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sarb Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sarb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd0]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sarb Memory, _1");
    reach!("sarb Memory, _1");
}
fn m076_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sarb Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sarb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd2]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sarb Memory, _Cl");
    reach!("sarb Memory, _Cl");
}
fn m076_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sarb Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sarb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc0]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: sarb Memory, i8");
    reach!("sarb Memory, i8");
}
fn m076_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sarl Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sarl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sarl Memory, _1");
    reach!("sarl Memory, _1");
}
fn m077_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sarl Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sarl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sarl Memory, _Cl");
    reach!("sarl Memory, _Cl");
}
fn m077_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sarl Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sarl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: sarl Memory, i8");
    reach!("sarl Memory, i8");
}
fn m077_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("sarq Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sarq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd1]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sarq Memory, _1");
    reach!("sarq Memory, _1");
}
fn m077_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("sarq Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sarq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd3]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sarq Memory, _Cl");
    reach!("sarq Memory, _Cl");
}
fn m077_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("sarq Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sarq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xc1]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: sarq Memory, i8");
    reach!("sarq Memory, i8");
}
fn m077_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sarw Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sarw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sarw Memory, _1");
    reach!("sarw Memory, _1");
}
fn m078_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sarw Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sarw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sarw Memory, _Cl");
    reach!("sarw Memory, _Cl");
}
fn m078_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sarw Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sarw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 7, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: sarw Memory, i8");
    reach!("sarw Memory, i8");
}
fn m078_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sbbb Gpr8, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x1a]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: sbbb Gpr8, Memory");
    reach!("sbbb Gpr8, Memory");
}
fn m078_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sbbb Memory, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x18]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sbbb Memory, Gpr8");
    reach!("sbbb Memory, Gpr8");
}
fn m078_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sbbb Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x80]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: sbbb Memory, i8");
    reach!("sbbb Memory, i8");
}
fn m078_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sbbl Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x1b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: sbbl Gpr32, Memory");
    reach!("sbbl Gpr32, Memory");
}
fn m079_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sbbl Memory, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x19]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sbbl Memory, Gpr32");
    reach!("sbbl Memory, Gpr32");
}
fn m079_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sbbl Memory, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: sbbl Memory, i32");
    reach!("sbbl Memory, i32");
}
fn m079_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sbbl Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: sbbl Memory, i8");
    reach!("sbbl Memory, i8");
}
fn m079_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("sbbq Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x1b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: sbbq Gpr64, Memory");
    reach!("sbbq Gpr64, Memory");
}
fn m079_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("sbbq Memory, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x19]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sbbq Memory, Gpr64");
    reach!("sbbq Memory, Gpr64");
}
fn m079_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("sbbq Memory, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x81]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: sbbq Memory, i32");
    reach!("sbbq Memory, i32");
}
fn m080_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("sbbq Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x83]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: sbbq Memory, i8");
    reach!("sbbq Memory, i8");
}
fn m080_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sbbw Gpr16, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x1b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: sbbw Gpr16, Memory");
    reach!("sbbw Gpr16, Memory");
}
fn m080_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sbbw Memory, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x19]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sbbw Memory, Gpr16");
    reach!("sbbw Memory, Gpr16");
}
fn m080_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sbbw Memory, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: sbbw Memory, i16");
    reach!("sbbw Memory, i16");
}
fn m080_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sbbw Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sbbw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: sbbw Memory, i8");
    reach!("sbbw Memory, i8");
}
fn m080_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("seta Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.seta(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x97]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: seta Memory");
    reach!("seta Memory");
}
fn m081_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setae Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setae(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x93]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setae Memory");
    reach!("setae Memory");
}
fn m081_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setb Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setb(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x92]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setb Memory");
    reach!("setb Memory");
}
fn m081_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setbe Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setbe(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x96]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setbe Memory");
    reach!("setbe Memory");
}
fn m081_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setc Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setc(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x92]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setc Memory");
    reach!("setc Memory");
}
fn m081_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sete Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sete(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x94]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sete Memory");
    reach!("sete Memory");
}
fn m081_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setg Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setg(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x9f]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setg Memory");
    reach!("setg Memory");
}
fn m082_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setge Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setge(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x9d]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setge Memory");
    reach!("setge Memory");
}
fn m082_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setl Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setl(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x9c]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setl Memory");
    reach!("setl Memory");
}
fn m082_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setle Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setle(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x9e]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setle Memory");
    reach!("setle Memory");
}
fn m082_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setna Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setna(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x96]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setna Memory");
    reach!("setna Memory");
}
fn m082_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setnae Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setnae(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x92]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setnae Memory");
    reach!("setnae Memory");
}
fn m082_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setnb Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setnb(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x93]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setnb Memory");
    reach!("setnb Memory");
}
fn m083_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setnbe Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setnbe(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x97]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setnbe Memory");
    reach!("setnbe Memory");
}
fn m083_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setnc Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setnc(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x93]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setnc Memory");
    reach!("setnc Memory");
}
fn m083_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setne Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setne(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x95]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setne Memory");
    reach!("setne Memory");
}
fn m083_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setng Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setng(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x9e]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setng Memory");
    reach!("setng Memory");
}
fn m083_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setnge Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setnge(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x9c]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setnge Memory");
    reach!("setnge Memory");
}
fn m083_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setnl Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setnl(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x9d]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setnl Memory");
    reach!("setnl Memory");
}
fn m084_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setnle Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setnle(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x9f]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setnle Memory");
    reach!("setnle Memory");
}
fn m084_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setno Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setno(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x91]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setno Memory");
    reach!("setno Memory");
}
fn m084_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setnp Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setnp(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x9b]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setnp Memory");
    reach!("setnp Memory");
}
fn m084_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setns Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setns(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x99]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setns Memory");
    reach!("setns Memory");
}
fn m084_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setnz Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setnz(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x95]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setnz Memory");
    reach!("setnz Memory");
}
fn m084_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("seto Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.seto(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x90]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: seto Memory");
    reach!("seto Memory");
}
fn m085_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setp Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setp(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x9a]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setp Memory");
    reach!("setp Memory");
}
fn m085_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setpe Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setpe(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x9a]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setpe Memory");
    reach!("setpe Memory");
}
fn m085_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setpo Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setpo(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x9b]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setpo Memory");
    reach!("setpo Memory");
}
fn m085_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sets Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sets(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x98]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sets Memory");
    reach!("sets Memory");
}
fn m085_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("setz Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.setz(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x94]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: setz Memory");
    reach!("setz Memory");
}
fn m085_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sgdt Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sgdt(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x01]) }, opn: 2, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sgdt Memory");
    reach!("sgdt Memory");
}
fn m086_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shlb Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shlb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd0]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shlb Memory, _1");
    reach!("shlb Memory, _1");
}
fn m086_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shlb Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shlb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd2]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shlb Memory, _Cl");
    reach!("shlb Memory, _Cl");
}
fn m086_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shlb Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shlb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc0]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: shlb Memory, i8");
    reach!("shlb Memory, i8");
}
fn m086_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = _Cl; let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shldl Memory, Gpr32, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shldl(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xa5]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shldl Memory, Gpr32, _Cl");
    reach!("shldl Memory, Gpr32, _Cl");
}
fn m086_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shldl Memory, Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shldl(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xa4]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: 2 }, &ops), "instruction encoding: shldl Memory, Gpr32, i8");
    reach!("shldl Memory, Gpr32, i8");
}
fn m086_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = _Cl; let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("shldq Memory, Gpr64, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shldq(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xa5]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shldq Memory, Gpr64, _Cl");
    reach!("shldq Memory, Gpr64, _Cl");
}
fn m087_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("shldq Memory, Gpr64, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shldq(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xa4]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: 2 }, &ops), "instruction encoding: shldq Memory, Gpr64, i8");
    reach!("shldq Memory, Gpr64, i8");
}
fn m087_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = _Cl; let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shldw Memory, Gpr16, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shldw(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xa5]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shldw Memory, Gpr16, _Cl");
    reach!("shldw Memory, Gpr16, _Cl");
}
fn m087_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shldw Memory, Gpr16, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shldw(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xa4]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: 2 }, &ops), "instruction encoding: shldw Memory, Gpr16, i8");
    reach!("shldw Memory, Gpr16, i8");
}
fn m087_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shll Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shll(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shll Memory, _1");
    reach!("shll Memory, _1");
}
fn m087_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shll Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shll(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shll Memory, _Cl");
    reach!("shll Memory, _Cl");
}
fn m087_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shll Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shll(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: shll Memory, i8");
    reach!("shll Memory, i8");
}
fn m088_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("shlq Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shlq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd1]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shlq Memory, _1");
    reach!("shlq Memory, _1");
}
fn m088_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("shlq Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shlq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd3]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shlq Memory, _Cl");
    reach!("shlq Memory, _Cl");
}
fn m088_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("shlq Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shlq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xc1]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: shlq Memory, i8");
    reach!("shlq Memory, i8");
}
fn m088_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shlw Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shlw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shlw Memory, _1");
    reach!("shlw Memory, _1");
}
fn m088_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shlw Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shlw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shlw Memory, _Cl");
    reach!("shlw Memory, _Cl");
}
fn m088_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shlw Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shlw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: shlw Memory, i8");
    reach!("shlw Memory, i8");
}
fn m089_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrb Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd0]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shrb Memory, _1");
    reach!("shrb Memory, _1");
}
fn m089_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrb Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd2]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shrb Memory, _Cl");
    reach!("shrb Memory, _Cl");
}
fn m089_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrb Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc0]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: shrb Memory, i8");
    reach!("shrb Memory, i8");
}
fn m089_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = _Cl; let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrdl Memory, Gpr32, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrdl(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xad]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shrdl Memory, Gpr32, _Cl");
    reach!("shrdl Memory, Gpr32, _Cl");
}
fn m089_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrdl Memory, Gpr32, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrdl(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xac]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: 2 }, &ops), "instruction encoding: shrdl Memory, Gpr32, i8");
    reach!("shrdl Memory, Gpr32, i8");
}
fn m089_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = _Cl; let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("shrdq Memory, Gpr64, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrdq(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xad]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shrdq Memory, Gpr64, _Cl");
    reach!("shrdq Memory, Gpr64, _Cl");
}
fn m090_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("shrdq Memory, Gpr64, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrdq(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xac]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: 2 }, &ops), "instruction encoding: shrdq Memory, Gpr64, i8");
    reach!("shrdq Memory, Gpr64, i8");
}
fn m090_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = _Cl; let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrdw Memory, Gpr16, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrdw(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xad]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shrdw Memory, Gpr16, _Cl");
    reach!("shrdw Memory, Gpr16, _Cl");
}
fn m090_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrdw Memory, Gpr16, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrdw(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xac]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: 2 }, &ops), "instruction encoding: shrdw Memory, Gpr16, i8");
    reach!("shrdw Memory, Gpr16, i8");
}
fn m090_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrl Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shrl Memory, _1");
    reach!("shrl Memory, _1");
}
fn m090_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrl Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shrl Memory, _Cl");
    reach!("shrl Memory, _Cl");
}
fn m090_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrl Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: shrl Memory, i8");
    reach!("shrl Memory, i8");
}
fn m091_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("shrq Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd1]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shrq Memory, _1");
    reach!("shrq Memory, _1");
}
fn m091_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("shrq Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xd3]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shrq Memory, _Cl");
    reach!("shrq Memory, _Cl");
}
fn m091_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("shrq Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xc1]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: shrq Memory, i8");
    reach!("shrq Memory, i8");
}
fn m091_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _1; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrw Memory, _1 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd1]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shrw Memory, _1");
    reach!("shrw Memory, _1");
}
fn m091_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = _Cl; let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrw Memory, _Cl {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xd3]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: shrw Memory, _Cl");
    reach!("shrw Memory, _Cl");
}
fn m091_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shrw Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shrw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xc1]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: shrw Memory, i8");
    reach!("shrw Memory, i8");
}
fn m092_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shufpd Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shufpd(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xc6]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: shufpd Xmm, Memory, i8");
    reach!("shufpd Xmm, Memory, i8");
}
fn m092_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let p2 = s.i8(); let v2 = Opv::I8(p2);
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("shufps Xmm, Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.shufps(p0, p1, p2);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xc6]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: 2 }, &ops), "instruction encoding: shufps Xmm, Memory, i8");
    reach!("shufps Xmm, Memory, i8");
}
fn m092_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sidt Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sidt(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x01]) }, opn: 2, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: sidt Memory");
    reach!("sidt Memory");
}
fn m092_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sqrtpd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sqrtpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x51]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: sqrtpd Xmm, Memory");
    reach!("sqrtpd Xmm, Memory");
}
fn m092_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sqrtps Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sqrtps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x51]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: sqrtps Xmm, Memory");
    reach!("sqrtps Xmm, Memory");
}
fn m092_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sqrtsd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sqrtsd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x51]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: sqrtsd Xmm, Memory");
    reach!("sqrtsd Xmm, Memory");
}
fn m093_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("sqrtss Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.sqrtss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x51]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: sqrtss Xmm, Memory");
    reach!("sqrtss Xmm, Memory");
}
fn m093_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("stmxcsr Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.stmxcsr(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xae]) }, opn: 2, modrm: 3, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: stmxcsr Memory");
    reach!("stmxcsr Memory");
}
fn m093_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("str Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.str(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x00]) }, opn: 2, modrm: 1, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: str Memory");
    reach!("str Memory");
}
fn m093_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subb Gpr8, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x2a]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: subb Gpr8, Memory");
    reach!("subb Gpr8, Memory");
}
fn m093_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subb Memory, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x28]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: subb Memory, Gpr8");
    reach!("subb Memory, Gpr8");
}
fn m093_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subb Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x80]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: subb Memory, i8");
    reach!("subb Memory, i8");
}
fn m094_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subl Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x2b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: subl Gpr32, Memory");
    reach!("subl Gpr32, Memory");
}
fn m094_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subl Memory, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x29]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: subl Memory, Gpr32");
    reach!("subl Memory, Gpr32");
}
fn m094_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subl Memory, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: subl Memory, i32");
    reach!("subl Memory, i32");
}
fn m094_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subl Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: subl Memory, i8");
    reach!("subl Memory, i8");
}
fn m094_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subpd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x5c]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: subpd Xmm, Memory");
    reach!("subpd Xmm, Memory");
}
fn m094_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subps Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x5c]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: subps Xmm, Memory");
    reach!("subps Xmm, Memory");
}
fn m095_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("subq Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x2b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: subq Gpr64, Memory");
    reach!("subq Gpr64, Memory");
}
fn m095_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("subq Memory, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x29]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: subq Memory, Gpr64");
    reach!("subq Memory, Gpr64");
}
fn m095_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("subq Memory, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x81]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: subq Memory, i32");
    reach!("subq Memory, i32");
}
fn m095_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("subq Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x83]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: subq Memory, i8");
    reach!("subq Memory, i8");
}
fn m095_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subsd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subsd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf2]) }, w: false, op: const { op(&[0x0f, 0x5c]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: subsd Xmm, Memory");
    reach!("subsd Xmm, Memory");
}
fn m095_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subss Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0xf3]) }, w: false, op: const { op(&[0x0f, 0x5c]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: subss Xmm, Memory");
    reach!("subss Xmm, Memory");
}
fn m096_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subw Gpr16, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x2b]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: subw Gpr16, Memory");
    reach!("subw Gpr16, Memory");
}
fn m096_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subw Memory, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x29]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: subw Memory, Gpr16");
    reach!("subw Memory, Gpr16");
}
fn m096_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subw Memory, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: subw Memory, i16");
    reach!("subw Memory, i16");
}
fn m096_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("subw Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.subw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: subw Memory, i8");
    reach!("subw Memory, i8");
}
fn m096_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("testb Memory, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.testb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x84]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: testb Memory, Gpr8");
    reach!("testb Memory, Gpr8");
}
fn m096_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("testb Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.testb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf6]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: testb Memory, i8");
    reach!("testb Memory, i8");
}
fn m097_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("testl Memory, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.testl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x85]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: testl Memory, Gpr32");
    reach!("testl Memory, Gpr32");
}
fn m097_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("testl Memory, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.testl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: testl Memory, i32");
    reach!("testl Memory, i32");
}
fn m097_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("testq Memory, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.testq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x85]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: testq Memory, Gpr64");
    reach!("testq Memory, Gpr64");
}
fn m097_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("testq Memory, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.testq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0xf7]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: testq Memory, i32");
    reach!("testq Memory, i32");
}
fn m097_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("testw Memory, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.testw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x85]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: testw Memory, Gpr16");
    reach!("testw Memory, Gpr16");
}
fn m097_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("testw Memory, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.testw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0xf7]) }, opn: 1, modrm: 0, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: testw Memory, i16");
    reach!("testw Memory, i16");
}
fn m098_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("ucomisd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.ucomisd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x2e]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: ucomisd Xmm, Memory");
    reach!("ucomisd Xmm, Memory");
}
fn m098_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("ucomiss Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.ucomiss(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x2e]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: ucomiss Xmm, Memory");
    reach!("ucomiss Xmm, Memory");
}
fn m098_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("unpckhpd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.unpckhpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x15]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: unpckhpd Xmm, Memory");
    reach!("unpckhpd Xmm, Memory");
}
fn m098_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("unpckhps Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.unpckhps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x15]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: unpckhps Xmm, Memory");
    reach!("unpckhps Xmm, Memory");
}
fn m098_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("unpcklpd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.unpcklpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x14]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: unpcklpd Xmm, Memory");
    reach!("unpcklpd Xmm, Memory");
}
fn m098_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("unpcklps Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.unpcklps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x14]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: unpcklps Xmm, Memory");
    reach!("unpcklps Xmm, Memory");
}
fn m099_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("verr Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.verr(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x00]) }, opn: 2, modrm: 4, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: verr Memory");
    reach!("verr Memory");
}
fn m099_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let v1 = Opv::F;
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("verw Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.verw(p0);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x00]) }, opn: 2, modrm: 5, reg: -1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: verw Memory");
    reach!("verw Memory");
}
fn m099_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xaddb Memory, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xaddb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xc0]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: xaddb Memory, Gpr8");
    reach!("xaddb Memory, Gpr8");
}
fn m099_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xaddl Memory, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xaddl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0xc1]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: xaddl Memory, Gpr32");
    reach!("xaddl Memory, Gpr32");
}
fn m099_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("xaddq Memory, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xaddq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x0f, 0xc1]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: xaddq Memory, Gpr64");
    reach!("xaddq Memory, Gpr64");
}
fn m099_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xaddw Memory, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xaddw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0xc1]) }, opn: 2, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: xaddw Memory, Gpr16");
    reach!("xaddw Memory, Gpr16");
}
fn m100_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xchgb Gpr8, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xchgb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x86]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: xchgb Gpr8, Memory");
    reach!("xchgb Gpr8, Memory");
}
fn m100_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xchgb Memory, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xchgb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x86]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: xchgb Memory, Gpr8");
    reach!("xchgb Memory, Gpr8");
}
fn m100_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xchgl Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xchgl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x87]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: xchgl Gpr32, Memory");
    reach!("xchgl Gpr32, Memory");
}
fn m100_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xchgl Memory, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xchgl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x87]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: xchgl Memory, Gpr32");
    reach!("xchgl Memory, Gpr32");
}
fn m100_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("xchgq Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xchgq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x87]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: xchgq Gpr64, Memory");
    reach!("xchgq Gpr64, Memory");
}
fn m100_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("xchgq Memory, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xchgq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x87]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: xchgq Memory, Gpr64");
    reach!("xchgq Memory, Gpr64");
}
fn m101_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xchgw Gpr16, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xchgw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x87]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: xchgw Gpr16, Memory");
    reach!("xchgw Gpr16, Memory");
}
fn m101_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xchgw Memory, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xchgw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x87]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: xchgw Memory, Gpr16");
    reach!("xchgw Memory, Gpr16");
}
fn m101_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(20); let p0 = gpr8_of(c0); let v0 = Opv::B(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorb Gpr8, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x32]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: xorb Gpr8, Memory");
    reach!("xorb Gpr8, Memory");
}
fn m101_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(20); let p1 = gpr8_of(c1); let v1 = Opv::B(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorb Memory, Gpr8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x30]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: xorb Memory, Gpr8");
    reach!("xorb Memory, Gpr8");
}
fn m101_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorb Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorb(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x80]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: xorb Memory, i8");
    reach!("xorb Memory, i8");
}
fn m101_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr32_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorl Gpr32, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x33]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: xorl Gpr32, Memory");
    reach!("xorl Gpr32, Memory");
}
fn m102_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr32_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorl Memory, Gpr32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x31]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: xorl Memory, Gpr32");
    reach!("xorl Memory, Gpr32");
}
fn m102_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorl Memory, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: xorl Memory, i32");
    reach!("xorl Memory, i32");
}
fn m102_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorl Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorl(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: xorl Memory, i8");
    reach!("xorl Memory, i8");
}
fn m102_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorpd Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorpd(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x0f, 0x57]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: xorpd Xmm, Memory");
    reach!("xorpd Xmm, Memory");
}
fn m102_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = xmm_of(c0); let v0 = Opv::X(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorps Xmm, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorps(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: false, op: const { op(&[0x0f, 0x57]) }, opn: 2, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: xorps Xmm, Memory");
    reach!("xorps Xmm, Memory");
}
fn m102_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr64_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("xorq Gpr64, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x33]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: xorq Gpr64, Memory");
    reach!("xorq Gpr64, Memory");
}
fn m103_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr64_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("xorq Memory, Gpr64 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x31]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: xorq Memory, Gpr64");
    reach!("xorq Memory, Gpr64");
}
fn m103_1<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i32(); let v1 = Opv::I32(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("xorq Memory, i32 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x81]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: xorq Memory, i32");
    reach!("xorq Memory, i32");
}
fn m103_2<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(true, &ops));
    note(|| format!("xorq Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorq(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[]) }, w: true, op: const { op(&[0x83]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: xorq Memory, i8");
    reach!("xorq Memory, i8");
}
fn m103_3<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let c0 = s.below(16); let p0 = gpr16_of(c0); let v0 = Opv::G(c0 as u8);
    let (p1, e1) = (mp, me); let v1 = Opv::M(e1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorw Gpr16, Memory {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x33]) }, opn: 1, modrm: 8, reg: 0, rm: 1, opreg: -1, imm: -1 }, &ops), "instruction encoding: xorw Gpr16, Memory");
    reach!("xorw Gpr16, Memory");
}
fn m103_4<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let c1 = s.below(16); let p1 = gpr16_of(c1); let v1 = Opv::G(c1 as u8);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorw Memory, Gpr16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x31]) }, opn: 1, modrm: 8, reg: 1, rm: 0, opreg: -1, imm: -1 }, &ops), "instruction encoding: xorw Memory, Gpr16");
    reach!("xorw Memory, Gpr16");
}
fn m103_5<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i16(); let v1 = Opv::I16(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorw Memory, i16 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x81]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: xorw Memory, i16");
    reach!("xorw Memory, i16");
}
fn m104_0<S: Src>(s: &mut S, mp: Memory, me: Ea) {
    let (p0, e0) = (mp, me); let v0 = Opv::M(e0);
    let p1 = s.i8(); let v1 = Opv::I8(p1);
    let v2 = Opv::F;
    let ops = [v0, v1, v2];
    s.assume(encodable(false, &ops));
    note(|| format!("xorw Memory, i8 {:?}", ops));
    let mut k = Sink::new();
    let _ = k.xorw(p0, p1);
    chk!(decodes(&k, &Row { pre: const { pre(&[0x66]) }, w: false, op: const { op(&[0x83]) }, opn: 1, modrm: 6, reg: -1, rm: 0, opreg: -1, imm: 1 }, &ops), "instruction encoding: xorw Memory, i8");
    reach!("xorw Memory, i8");
}
#[cfg(not(kani))]
pub fn entries() -> Vec<Entry> {
    vec![
        kit::entry!("C02", c02_forms::r000, 1, kani),
        kit::entry!("C02", c02_forms::r001, 1, kani),
        kit::entry!("C02", c02_forms::r002, 1, kani),
        kit::entry!("C02", c02_forms::r003, 1, kani),
        kit::entry!("C02", c02_forms::r004, 1, kani),
        kit::entry!("C02", c02_forms::r005, 1, kani),
        kit::entry!("C02", c02_forms::r006, 1, kani),
        kit::entry!("C02", c02_forms::r007, 1, kani),
        kit::entry!("C02", c02_forms::r008, 1, kani),
        kit::entry!("C02", c02_forms::r009, 1, kani),
        kit::entry!("C02", c02_forms::r010, 1, kani),
        kit::entry!("C02", c02_forms::r011, 1, kani),
        kit::entry!("C02", c02_forms::r012, 1, kani),
        kit::entry!("C02", c02_forms::r013, 1, kani),
        kit::entry!("C02", c02_forms::r014, 1, kani),
        kit::entry!("C02", c02_forms::r015, 1, kani),
        kit::entry!("C02", c02_forms::r016, 1, kani),
        kit::entry!("C02", c02_forms::r017, 1, kani),
        kit::entry!("C02", c02_forms::r018, 1, kani),
        kit::entry!("C02", c02_forms::r019, 1, kani),
        kit::entry!("C02", c02_forms::r020, 1, kani),
        kit::entry!("C02", c02_forms::r021, 1, kani),
        kit::entry!("C02", c02_forms::r022, 1, kani),
        kit::entry!("C02", c02_forms::r023, 1, kani),
        kit::entry!("C02", c02_forms::r024, 1, kani),
        kit::entry!("C02", c02_forms::r025, 1, kani),
        kit::entry!("C02", c02_forms::r026, 1, kani),
        kit::entry!("C02", c02_forms::r027, 1, kani),
        kit::entry!("C02", c02_forms::r028, 1, kani),
        kit::entry!("C02", c02_forms::r029, 1, kani),
        kit::entry!("C02", c02_forms::r030, 1, kani),
        kit::entry!("C02", c02_forms::r031, 1, kani),
        kit::entry!("C02", c02_forms::r032, 1, kani),
        kit::entry!("C02", c02_forms::r033, 1, kani),
        kit::entry!("C02", c02_forms::r034, 1, kani),
        kit::entry!("C02", c02_forms::r035, 1, kani),
        kit::entry!("C02", c02_forms::r036, 1, kani),
        kit::entry!("C02", c02_forms::r037, 1, kani),
        kit::entry!("C02", c02_forms::r038, 1, kani),
        kit::entry!("C02", c02_forms::r039, 1, kani),
        kit::entry!("C02", c02_forms::r040, 1, kani),
        kit::entry!("C02", c02_forms::r041, 1, kani),
        kit::entry!("C02", c02_forms::r042, 1, kani),
        kit::entry!("C02", c02_forms::r043, 1, kani),
        kit::entry!("C02", c02_forms::r044, 1, kani),
        kit::entry!("C02", c02_forms::r045, 1, kani),
        kit::entry!("C02", c02_forms::r046, 1, kani),
        kit::entry!("C02", c02_forms::r047, 1, kani),
        kit::entry!("C02", c02_forms::r048, 1, kani),
        kit::entry!("C02", c02_forms::r049, 1, kani),
        kit::entry!("C02", c02_forms::r050, 1, kani),
        kit::entry!("C02", c02_forms::r051, 1, kani),
        kit::entry!("C02", c02_forms::r052, 1, kani),
        kit::entry!("C02", c02_forms::r053, 1, kani),
        kit::entry!("C02", c02_forms::r054, 1, kani),
        kit::entry!("C02", c02_forms::r055, 1, kani),
        kit::entry!("C02", c02_forms::r056, 1, kani),
        kit::entry!("C02", c02_forms::r057, 1, kani),
        kit::entry!("C02", c02_forms::r058, 1, kani),
        kit::entry!("C02", c02_forms::r059, 1, kani),
        kit::entry!("C02", c02_forms::r060, 1, kani),
        kit::entry!("C02", c02_forms::r061, 1, kani),
        kit::entry!("C02", c02_forms::m000, 1, kani),
        kit::entry!("C02", c02_forms::m001, 1, kani),
        kit::entry!("C02", c02_forms::m002, 1, kani),
        kit::entry!("C02", c02_forms::m003, 1, kani),
        kit::entry!("C02", c02_forms::m004, 1, kani),
        kit::entry!("C02", c02_forms::m005, 1, kani),
        kit::entry!("C02", c02_forms::m006, 1, kani),
        kit::entry!("C02", c02_forms::m007, 1, kani),
        kit::entry!("C02", c02_forms::m008, 1, kani),
        kit::entry!("C02", c02_forms::m009, 1, kani),
        kit::entry!("C02", c02_forms::m010, 1, kani),
        kit::entry!("C02", c02_forms::m011, 1, kani),
        kit::entry!("C02", c02_forms::m012, 1, kani),
        kit::entry!("C02", c02_forms::m013, 1, kani),
        kit::entry!("C02", c02_forms::m014, 1, kani),
        kit::entry!("C02", c02_forms::m015, 1, kani),
        kit::entry!("C02", c02_forms::m016, 1, kani),
        kit::entry!("C02", c02_forms::m017, 1, kani),
        kit::entry!("C02", c02_forms::m018, 1, kani),
        kit::entry!("C02", c02_forms::m019, 1, kani),
        kit::entry!("C02", c02_forms::m020, 1, kani),
        kit::entry!("C02", c02_forms::m021, 1, kani),
        kit::entry!("C02", c02_forms::m022, 1, kani),
        kit::entry!("C02", c02_forms::m023, 1, kani),
        kit::entry!("C02", c02_forms::m024, 1, kani),
        kit::entry!("C02", c02_forms::m025, 1, kani),
        kit::entry!("C02", c02_forms::m026, 1, kani),
        kit::entry!("C02", c02_forms::m027, 1, kani),
        kit::entry!("C02", c02_forms::m028, 1, kani),
        kit::entry!("C02", c02_forms::m029, 1, kani),
        kit::entry!("C02", c02_forms::m030, 1, kani),
        kit::entry!("C02", c02_forms::m031, 1, kani),
        kit::entry!("C02", c02_forms::m032, 1, kani),
        kit::entry!("C02", c02_forms::m033, 1, kani),
        kit::entry!("C02", c02_forms::m034, 1, kani),
        kit::entry!("C02", c02_forms::m035, 1, kani),
        kit::entry!("C02", c02_forms::m036, 1, kani),
        kit::entry!("C02", c02_forms::m037, 1, kani),
        kit::entry!("C02", c02_forms::m038, 1, kani),
        kit::entry!("C02", c02_forms::m039, 1, kani),
        kit::entry!("C02", c02_forms::m040, 1, kani),
        kit::entry!("C02", c02_forms::m041, 1, kani),
        kit::entry!("C02", c02_forms::m042, 1, kani),
        kit::entry!("C02", c02_forms::m043, 1, kani),
        kit::entry!("C02", c02_forms::m044, 1, kani),
        kit::entry!("C02", c02_forms::m045, 1, kani),
        kit::entry!("C02", c02_forms::m046, 1, kani),
        kit::entry!("C02", c02_forms::m047, 1, kani),
        kit::entry!("C02", c02_forms::m048, 1, kani),
        kit::entry!("C02", c02_forms::m049, 1, kani),
        kit::entry!("C02", c02_forms::m050, 1, kani),
        kit::entry!("C02", c02_forms::m051, 1, kani),
        kit::entry!("C02", c02_forms::m052, 1, kani),
        kit::entry!("C02", c02_forms::m053, 1, kani),
        kit::entry!("C02", c02_forms::m054, 1, kani),
        kit::entry!("C02", c02_forms::m055, 1, kani),
        kit::entry!("C02", c02_forms::m056, 1, kani),
        kit::entry!("C02", c02_forms::m057, 1, kani),
        kit::entry!("C02", c02_forms::m058, 1, kani),
        kit::entry!("C02", c02_forms::m059, 1, kani),
        kit::entry!("C02", c02_forms::m060, 1, kani),
        kit::entry!("C02", c02_forms::m061, 1, kani),
        kit::entry!("C02", c02_forms::m062, 1, kani),
        kit::entry!("C02", c02_forms::m063, 1, kani),
        kit::entry!("C02", c02_forms::m064, 1, kani),
        kit::entry!("C02", c02_forms::m065, 1, kani),
        kit::entry!("C02", c02_forms::m066, 1, kani),
        kit::entry!("C02", c02_forms::m067, 1, kani),
        kit::entry!("C02", c02_forms::m068, 1, kani),
        kit::entry!("C02", c02_forms::m069, 1, kani),
        kit::entry!("C02", c02_forms::m070, 1, kani),
        kit::entry!("C02", c02_forms::m071, 1, kani),
        kit::entry!("C02", c02_forms::m072, 1, kani),
        kit::entry!("C02", c02_forms::m073, 1, kani),
        kit::entry!("C02", c02_forms::m074, 1, kani),
        kit::entry!("C02", c02_forms::m075, 1, kani),
        kit::entry!("C02", c02_forms::m076, 1, kani),
        kit::entry!("C02", c02_forms::m077, 1, kani),
        kit::entry!("C02", c02_forms::m078, 1, kani),
        kit::entry!("C02", c02_forms::m079, 1, kani),
        kit::entry!("C02", c02_forms::m080, 1, kani),
        kit::entry!("C02", c02_forms::m081, 1, kani),
        kit::entry!("C02", c02_forms::m082, 1, kani),
        kit::entry!("C02", c02_forms::m083, 1, kani),
        kit::entry!("C02", c02_forms::m084, 1, kani),
        kit::entry!("C02", c02_forms::m085, 1, kani),
        kit::entry!("C02", c02_forms::m086, 1, kani),
        kit::entry!("C02", c02_forms::m087, 1, kani),
        kit::entry!("C02", c02_forms::m088, 1, kani),
        kit::entry!("C02", c02_forms::m089, 1, kani),
        kit::entry!("C02", c02_forms::m090, 1, kani),
        kit::entry!("C02", c02_forms::m091, 1, kani),
        kit::entry!("C02", c02_forms::m092, 1, kani),
        kit::entry!("C02", c02_forms::m093, 1, kani),
        kit::entry!("C02", c02_forms::m094, 1, kani),
        kit::entry!("C02", c02_forms::m095, 1, kani),
        kit::entry!("C02", c02_forms::m096, 1, kani),
        kit::entry!("C02", c02_forms::m097, 1, kani),
        kit::entry!("C02", c02_forms::m098, 1, kani),
        kit::entry!("C02", c02_forms::m099, 1, kani),
        kit::entry!("C02", c02_forms::m100, 1, kani),
        kit::entry!("C02", c02_forms::m101, 1, kani),
        kit::entry!("C02", c02_forms::m102, 1, kani),
        kit::entry!("C02", c02_forms::m103, 1, kani),
        kit::entry!("C02", c02_forms::m104, 1, kani),
    ]
}
