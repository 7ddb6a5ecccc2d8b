// Written by gen_algs.py
use tclifford::declare_algebra;
declare_algebra!(pub Sp, [+]);
declare_algebra!(pub Sm, [-]);
declare_algebra!(pub Sz, [0]);
declare_algebra!(pub Spp, [+,+]);
declare_algebra!(pub Spm, [+,-]);
declare_algebra!(pub Smp, [-,+]);
declare_algebra!(pub Smm, [-,-]);
declare_algebra!(pub Spz, [+,0]);
declare_algebra!(pub Smz, [-,0]);
declare_algebra!(pub Szz, [0,0]);
declare_algebra!(pub Sppp, [+,+,+]);
declare_algebra!(pub Sppm, [+,+,-]);
declare_algebra!(pub Spmp, [+,-,+]);
declare_algebra!(pub Spmm, [+,-,-]);
declare_algebra!(pub Smpp, [-,+,+]);
declare_algebra!(pub Smpm, [-,+,-]);
declare_algebra!(pub Smmp, [-,-,+]);
declare_algebra!(pub Smmm, [-,-,-]);
declare_algebra!(pub Sppz, [+,+,0]);
declare_algebra!(pub Spmz, [+,-,0]);
declare_algebra!(pub Smpz, [-,+,0]);
declare_algebra!(pub Smmz, [-,-,0]);
declare_algebra!(pub Spzz, [+,0,0]);
declare_algebra!(pub Smzz, [-,0,0]);
declare_algebra!(pub Szzz, [0,0,0]);
declare_algebra!(pub Spppp, [+,+,+,+]);
declare_algebra!(pub Spppm, [+,+,+,-]);
declare_algebra!(pub Sppmp, [+,+,-,+]);
declare_algebra!(pub Sppmm, [+,+,-,-]);
declare_algebra!(pub Spmpp, [+,-,+,+]);
declare_algebra!(pub Spmpm, [+,-,+,-]);
declare_algebra!(pub Spmmp, [+,-,-,+]);
declare_algebra!(pub Spmmm, [+,-,-,-]);
declare_algebra!(pub Smppp, [-,+,+,+]);
declare_algebra!(pub Smppm, [-,+,+,-]);
declare_algebra!(pub Smpmp, [-,+,-,+]);
declare_algebra!(pub Smpmm, [-,+,-,-]);
declare_algebra!(pub Smmpp, [-,-,+,+]);
declare_algebra!(pub Smmpm, [-,-,+,-]);
declare_algebra!(pub Smmmp, [-,-,-,+]);
declare_algebra!(pub Smmmm, [-,-,-,-]);
declare_algebra!(pub Spppz, [+,+,+,0]);
declare_algebra!(pub Sppmz, [+,+,-,0]);
declare_algebra!(pub Spmpz, [+,-,+,0]);
declare_algebra!(pub Spmmz, [+,-,-,0]);
declare_algebra!(pub Smppz, [-,+,+,0]);
declare_algebra!(pub Smpmz, [-,+,-,0]);
declare_algebra!(pub Smmpz, [-,-,+,0]);
declare_algebra!(pub Smmmz, [-,-,-,0]);
declare_algebra!(pub Sppzz, [+,+,0,0]);
declare_algebra!(pub Spmzz, [+,-,0,0]);
declare_algebra!(pub Smpzz, [-,+,0,0]);
declare_algebra!(pub Smmzz, [-,-,0,0]);
declare_algebra!(pub Spzzz, [+,0,0,0]);
declare_algebra!(pub Smzzz, [-,0,0,0]);
declare_algebra!(pub Szzzz, [0,0,0,0]);
declare_algebra!(pub Sppppp, [+,+,+,+,+]);
declare_algebra!(pub Smmmmm, [-,-,-,-,-]);
declare_algebra!(pub Spmpmp, [+,-,+,-,+]);
declare_algebra!(pub Smmppp, [-,-,+,+,+]);
declare_algebra!(pub Sppmmz, [+,+,-,-,0]);
declare_algebra!(pub Smpmpz, [-,+,-,+,0]);
declare_algebra!(pub Spppzz, [+,+,+,0,0]);
declare_algebra!(pub Spmzzz, [+,-,0,0,0]);
declare_algebra!(pub Smzzzz, [-,0,0,0,0]);
declare_algebra!(pub Szzzzz, [0,0,0,0,0]);
declare_algebra!(pub Spppppp, [+,+,+,+,+,+]);
declare_algebra!(pub Smmmmmm, [-,-,-,-,-,-]);
declare_algebra!(pub Spmpmpm, [+,-,+,-,+,-]);
declare_algebra!(pub Smpmpmp, [-,+,-,+,-,+]);
declare_algebra!(pub Spppmmz, [+,+,+,-,-,0]);
declare_algebra!(pub Smppmzz, [-,+,+,-,0,0]);
declare_algebra!(pub Sppmzzz, [+,+,-,0,0,0]);
declare_algebra!(pub Spmzzzz, [+,-,0,0,0,0]);
declare_algebra!(pub Szzzzzz, [0,0,0,0,0,0]);
declare_algebra!(pub Sppppppp, [+,+,+,+,+,+,+]);
declare_algebra!(pub Smpmpmpm, [-,+,-,+,-,+,-]);
declare_algebra!(pub Sppppmmm, [+,+,+,+,-,-,-]);
declare_algebra!(pub Spppppmz, [+,+,+,+,+,-,0]);
declare_algebra!(pub Spmpmmzz, [+,-,+,-,-,0,0]);
declare_algebra!(pub Spmpzzzz, [+,-,+,0,0,0,0]);
declare_algebra!(pub Szzzzzzz, [0,0,0,0,0,0,0]);
declare_algebra!(pub Spppppppp, [+,+,+,+,+,+,+,+]);
declare_algebra!(pub Smmmmmmmm, [-,-,-,-,-,-,-,-]);
declare_algebra!(pub Spmpmpmpm, [+,-,+,-,+,-,+,-]);
declare_algebra!(pub Sppppmmzz, [+,+,+,+,-,-,0,0]);
declare_algebra!(pub Smpppmzzz, [-,+,+,+,-,0,0,0]);
declare_algebra!(pub Spmzzzzzz, [+,-,0,0,0,0,0,0]);
declare_algebra!(pub Spmpmpmppz, [+,-,+,-,+,-,+,+,0]);
declare_algebra!(pub Smmmpppmmm, [-,-,-,+,+,+,-,-,-]);
declare_algebra!(pub Spppppppppp, [+,+,+,+,+,+,+,+,+,+]);
declare_algebra!(pub Spmpmpmpmpm, [+,-,+,-,+,-,+,-,+,-]);
declare_algebra!(pub Smppmpmppmzz, [-,+,+,-,+,-,+,+,-,0,0]);
declare_algebra!(pub Sppppppppmmmm, [+,+,+,+,+,+,+,+,-,-,-,-]);
declare_algebra!(pub Sw13_10192, [+,+,+,+,+,+,+,+,+,+,+,+,+]);
declare_algebra!(pub Sw16_15374, [+,-,+,-,+,-,+,-,+,-,+,-,+,-,0,0]);
declare_algebra!(pub Sw20_24195, [-,-,+,-,-,+,-,-,+,-,-,+,-,-,+,0,0,0,0,0]);
declare_algebra!(pub Sw31_55142, [+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,0]);
declare_algebra!(pub Sw32_58608, [-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+]);
declare_algebra!(pub Sw33_63792, [+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,0,0,0]);
declare_algebra!(pub Sw48_133673, [+,-,-,+,-,-,+,-,-,+,-,-,+,-,-,+,-,-,+,-,-,+,-,-,+,-,-,+,-,-,+,-,-,+,-,-,+,-,-,+,0,0,0,0,0,0,0,0]);
declare_algebra!(pub Sw62_213683, [-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,0]);
declare_algebra!(pub Sw63_222816, [+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+]);
declare_algebra!(pub Sw63_229563, [+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,+,+,-,0,0,0,0,0,0,0,0,0]);
declare_algebra!(pub Sppppppppp, [+,+,+,+,+,+,+,+,+]);
declare_algebra!(pub Smmpmpmppmp, [-,-,+,-,+,-,+,+,-,+]);
declare_algebra!(pub Sppmpmmpmpmp, [+,+,-,+,-,-,+,-,+,-,+]);
declare_algebra!(pub Spzzzzzzz, [+,0,0,0,0,0,0,0]);
declare_algebra!(pub Smpzzzzz, [-,+,0,0,0,0,0]);
declare_algebra!(pub Sppmzzzzz, [+,+,-,0,0,0,0,0]);
declare_algebra!(pub Smpmpmpzzz, [-,+,-,+,-,+,0,0,0]);
declare_algebra!(pub Sppmpmmpmzzz, [+,+,-,+,-,-,+,-,0,0,0]);
declare_algebra!(pub Smppmpmpzzzz, [-,+,+,-,+,-,+,0,0,0,0]);
declare_algebra!(pub Sppmpmmpmpzzz, [+,+,-,+,-,-,+,-,+,0,0,0]);
declare_algebra!(pub Smpmppmpmzzzz, [-,+,-,+,+,-,+,-,0,0,0,0]);
declare_algebra!(pub Spmmpmzzzzzzz, [+,-,-,+,-,0,0,0,0,0,0,0]);
declare_algebra!(pub Sw13_11036, [+,-,+,0,0,0,0,0,0,0,0,0,0]);
declare_algebra!(pub Sw13_10379, [-,+,+,-,+,-,+,+,+,-,+,0,0]);
declare_algebra!(pub Sppppz, [+,+,+,+,0]);
declare_algebra!(pub Spppppz, [+,+,+,+,+,0]);
declare_algebra!(pub Sppppppz, [+,+,+,+,+,+,0]);
declare_algebra!(pub Spppppppz, [+,+,+,+,+,+,+,0]);
declare_algebra!(pub Spmpmz, [+,-,+,-,0]);
#[macro_export]
macro_rules! for_small {
    ($m:ident $($a:tt)*) => {
        $m!($crate::algs::Sp, "+", 1 $($a)*);
        $m!($crate::algs::Sm, "-", 1 $($a)*);
        $m!($crate::algs::Sz, "0", 1 $($a)*);
        $m!($crate::algs::Spp, "++", 2 $($a)*);
        $m!($crate::algs::Spm, "+-", 2 $($a)*);
        $m!($crate::algs::Smp, "-+", 2 $($a)*);
        $m!($crate::algs::Smm, "--", 2 $($a)*);
        $m!($crate::algs::Spz, "+0", 2 $($a)*);
        $m!($crate::algs::Smz, "-0", 2 $($a)*);
        $m!($crate::algs::Szz, "00", 2 $($a)*);
        $m!($crate::algs::Sppp, "+++", 3 $($a)*);
        $m!($crate::algs::Sppm, "++-", 3 $($a)*);
        $m!($crate::algs::Spmp, "+-+", 3 $($a)*);
        $m!($crate::algs::Spmm, "+--", 3 $($a)*);
        $m!($crate::algs::Smpp, "-++", 3 $($a)*);
        $m!($crate::algs::Smpm, "-+-", 3 $($a)*);
        $m!($crate::algs::Smmp, "--+", 3 $($a)*);
        $m!($crate::algs::Smmm, "---", 3 $($a)*);
        $m!($crate::algs::Sppz, "++0", 3 $($a)*);
        $m!($crate::algs::Spmz, "+-0", 3 $($a)*);
        $m!($crate::algs::Smpz, "-+0", 3 $($a)*);
        $m!($crate::algs::Smmz, "--0", 3 $($a)*);
        $m!($crate::algs::Spzz, "+00", 3 $($a)*);
        $m!($crate::algs::Smzz, "-00", 3 $($a)*);
        $m!($crate::algs::Szzz, "000", 3 $($a)*);
        $m!($crate::algs::Spppp, "++++", 4 $($a)*);
        $m!($crate::algs::Spppm, "+++-", 4 $($a)*);
        $m!($crate::algs::Sppmp, "++-+", 4 $($a)*);
        $m!($crate::algs::Sppmm, "++--", 4 $($a)*);
        $m!($crate::algs::Spmpp, "+-++", 4 $($a)*);
        $m!($crate::algs::Spmpm, "+-+-", 4 $($a)*);
        $m!($crate::algs::Spmmp, "+--+", 4 $($a)*);
        $m!($crate::algs::Spmmm, "+---", 4 $($a)*);
        $m!($crate::algs::Smppp, "-+++", 4 $($a)*);
        $m!($crate::algs::Smppm, "-++-", 4 $($a)*);
        $m!($crate::algs::Smpmp, "-+-+", 4 $($a)*);
        $m!($crate::algs::Smpmm, "-+--", 4 $($a)*);
        $m!($crate::algs::Smmpp, "--++", 4 $($a)*);
        $m!($crate::algs::Smmpm, "--+-", 4 $($a)*);
        $m!($crate::algs::Smmmp, "---+", 4 $($a)*);
        $m!($crate::algs::Smmmm, "----", 4 $($a)*);
        $m!($crate::algs::Spppz, "+++0", 4 $($a)*);
        $m!($crate::algs::Sppmz, "++-0", 4 $($a)*);
        $m!($crate::algs::Spmpz, "+-+0", 4 $($a)*);
        $m!($crate::algs::Spmmz, "+--0", 4 $($a)*);
        $m!($crate::algs::Smppz, "-++0", 4 $($a)*);
        $m!($crate::algs::Smpmz, "-+-0", 4 $($a)*);
        $m!($crate::algs::Smmpz, "--+0", 4 $($a)*);
        $m!($crate::algs::Smmmz, "---0", 4 $($a)*);
        $m!($crate::algs::Sppzz, "++00", 4 $($a)*);
        $m!($crate::algs::Spmzz, "+-00", 4 $($a)*);
        $m!($crate::algs::Smpzz, "-+00", 4 $($a)*);
        $m!($crate::algs::Smmzz, "--00", 4 $($a)*);
        $m!($crate::algs::Spzzz, "+000", 4 $($a)*);
        $m!($crate::algs::Smzzz, "-000", 4 $($a)*);
        $m!($crate::algs::Szzzz, "0000", 4 $($a)*);
    };
}
#[macro_export]
macro_rules! for_mid5 {
    ($m:ident $($a:tt)*) => {
        $m!($crate::algs::Sppppp, "+++++", 5 $($a)*);
        $m!($crate::algs::Smmmmm, "-----", 5 $($a)*);
        $m!($crate::algs::Spmpmp, "+-+-+", 5 $($a)*);
        $m!($crate::algs::Smmppp, "--+++", 5 $($a)*);
        $m!($crate::algs::Sppmmz, "++--0", 5 $($a)*);
        $m!($crate::algs::Smpmpz, "-+-+0", 5 $($a)*);
        $m!($crate::algs::Spppzz, "+++00", 5 $($a)*);
        $m!($crate::algs::Spmzzz, "+-000", 5 $($a)*);
        $m!($crate::algs::Smzzzz, "-0000", 5 $($a)*);
        $m!($crate::algs::Szzzzz, "00000", 5 $($a)*);
    };
}
#[macro_export]
macro_rules! for_mid6 {
    ($m:ident $($a:tt)*) => {
        $m!($crate::algs::Spppppp, "++++++", 6 $($a)*);
        $m!($crate::algs::Smmmmmm, "------", 6 $($a)*);
        $m!($crate::algs::Spmpmpm, "+-+-+-", 6 $($a)*);
        $m!($crate::algs::Smpmpmp, "-+-+-+", 6 $($a)*);
        $m!($crate::algs::Spppmmz, "+++--0", 6 $($a)*);
        $m!($crate::algs::Smppmzz, "-++-00", 6 $($a)*);
        $m!($crate::algs::Sppmzzz, "++-000", 6 $($a)*);
        $m!($crate::algs::Spmzzzz, "+-0000", 6 $($a)*);
        $m!($crate::algs::Szzzzzz, "000000", 6 $($a)*);
    };
}
#[macro_export]
macro_rules! for_mid7 {
    ($m:ident $($a:tt)*) => {
        $m!($crate::algs::Sppppppp, "+++++++", 7 $($a)*);
        $m!($crate::algs::Smpmpmpm, "-+-+-+-", 7 $($a)*);
        $m!($crate::algs::Sppppmmm, "++++---", 7 $($a)*);
        $m!($crate::algs::Spppppmz, "+++++-0", 7 $($a)*);
        $m!($crate::algs::Spmpmmzz, "+-+--00", 7 $($a)*);
        $m!($crate::algs::Spmpzzzz, "+-+0000", 7 $($a)*);
        $m!($crate::algs::Szzzzzzz, "0000000", 7 $($a)*);
    };
}
#[macro_export]
macro_rules! for_mid8 {
    ($m:ident $($a:tt)*) => {
        $m!($crate::algs::Spppppppp, "++++++++", 8 $($a)*);
        $m!($crate::algs::Smmmmmmmm, "--------", 8 $($a)*);
        $m!($crate::algs::Spmpmpmpm, "+-+-+-+-", 8 $($a)*);
        $m!($crate::algs::Sppppmmzz, "++++--00", 8 $($a)*);
        $m!($crate::algs::Smpppmzzz, "-+++-000", 8 $($a)*);
        $m!($crate::algs::Spmzzzzzz, "+-000000", 8 $($a)*);
    };
}
#[macro_export]
macro_rules! for_big {
    ($m:ident $($a:tt)*) => {
        $m!($crate::algs::Spmpmpmppz, "+-+-+-++0", 9 $($a)*);
        $m!($crate::algs::Smmmpppmmm, "---+++---", 9 $($a)*);
        $m!($crate::algs::Spppppppppp, "++++++++++", 10 $($a)*);
        $m!($crate::algs::Spmpmpmpmpm, "+-+-+-+-+-", 10 $($a)*);
        $m!($crate::algs::Smppmpmppmzz, "-++-+-++-00", 11 $($a)*);
        $m!($crate::algs::Sppppppppmmmm, "++++++++----", 12 $($a)*);
    };
}
#[macro_export]
macro_rules! for_wide {
    ($m:ident $($a:tt)*) => {
        $m!($crate::algs::Sw13_10192, "+++++++++++++", 13 $($a)*);
        $m!($crate::algs::Sw16_15374, "+-+-+-+-+-+-+-00", 16 $($a)*);
        $m!($crate::algs::Sw20_24195, "--+--+--+--+--+00000", 20 $($a)*);
        $m!($crate::algs::Sw31_55142, "+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-0", 31 $($a)*);
        $m!($crate::algs::Sw32_58608, "-++-++-++-++-++-++-++-++-++-++-+", 32 $($a)*);
        $m!($crate::algs::Sw33_63792, "++++++++++++++++++++++++++++++000", 33 $($a)*);
        $m!($crate::algs::Sw48_133673, "+--+--+--+--+--+--+--+--+--+--+--+--+--+00000000", 48 $($a)*);
        $m!($crate::algs::Sw62_213683, "-------------------------------------------------------------0", 62 $($a)*);
        $m!($crate::algs::Sw63_222816, "+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+", 63 $($a)*);
        $m!($crate::algs::Sw63_229563, "++-++-++-++-++-++-++-++-++-++-++-++-++-++-++-++-++-++-000000000", 63 $($a)*);
    };
}
#[macro_export]
macro_rules! for_split {
    ($m:ident $($a:tt)*) => {
        $m!($crate::algs::Spm, "+-", 2 $($a)*);
        $m!($crate::algs::Spmpm, "+-+-", 4 $($a)*);
        $m!($crate::algs::Spmpmpm, "+-+-+-", 6 $($a)*);
        $m!($crate::algs::Spmpmpmpm, "+-+-+-+-", 8 $($a)*);
    };
}
#[macro_export]
macro_rules! for_side {
    ($m:ident $($a:tt)*) => {
        $m!($crate::algs::Sppppppppp, "+++++++++", 9 $($a)*);
        $m!($crate::algs::Smmpmpmppmp, "--+-+-++-+", 10 $($a)*);
        $m!($crate::algs::Spmpmpmpmpm, "+-+-+-+-+-", 10 $($a)*);
        $m!($crate::algs::Sppmpmmpmpmp, "++-+--+-+-+", 11 $($a)*);
        $m!($crate::algs::Sppppppppmmmm, "++++++++----", 12 $($a)*);
    };
}
#[macro_export]
macro_rules! for_fbig {
    ($m:ident $($a:tt)*) => {
        $m!($crate::algs::Spzzzzzzz, "+0000000", 8 $($a)*);
        $m!($crate::algs::Smpzzzzz, "-+00000", 7 $($a)*);
        $m!($crate::algs::Sppmzzzzz, "++-00000", 8 $($a)*);
        $m!($crate::algs::Spmpmpmppz, "+-+-+-++0", 9 $($a)*);
        $m!($crate::algs::Smpmpmpzzz, "-+-+-+000", 9 $($a)*);
        $m!($crate::algs::Sppmpmmpmzzz, "++-+--+-000", 11 $($a)*);
        $m!($crate::algs::Sppppppppp, "+++++++++", 9 $($a)*);
        $m!($crate::algs::Smmpmpmppmp, "--+-+-++-+", 10 $($a)*);
        $m!($crate::algs::Smppmpmpzzzz, "-++-+-+0000", 11 $($a)*);
    };
}
#[macro_export]
macro_rules! for_fwide {
    ($m:ident $($a:tt)*) => {
        $m!($crate::algs::Sppmpmmpmpzzz, "++-+--+-+000", 12 $($a)*);
        $m!($crate::algs::Smpmppmpmzzzz, "-+-++-+-0000", 12 $($a)*);
        $m!($crate::algs::Spmmpmzzzzzzz, "+--+-0000000", 12 $($a)*);
        $m!($crate::algs::Sw13_11036, "+-+0000000000", 13 $($a)*);
        $m!($crate::algs::Sw13_10379, "-++-+-+++-+00", 13 $($a)*);
    };
}
#[macro_export]
macro_rules! for_pga {
    ($m:ident $($a:tt)*) => {
        $m!($crate::algs::Spz, "+0", 2 $($a)*);
        $m!($crate::algs::Sppz, "++0", 3 $($a)*);
        $m!($crate::algs::Spppz, "+++0", 4 $($a)*);
        $m!($crate::algs::Sppppz, "++++0", 5 $($a)*);
        $m!($crate::algs::Spppppz, "+++++0", 6 $($a)*);
        $m!($crate::algs::Sppppppz, "++++++0", 7 $($a)*);
        $m!($crate::algs::Spppppppz, "+++++++0", 8 $($a)*);
    };
}
#[macro_export]
macro_rules! for_nondeg {
    ($m:ident $($a:tt)*) => {
        $m!($crate::algs::Sp, "+", 1 $($a)*);
        $m!($crate::algs::Sm, "-", 1 $($a)*);
        $m!($crate::algs::Spp, "++", 2 $($a)*);
        $m!($crate::algs::Spm, "+-", 2 $($a)*);
        $m!($crate::algs::Smp, "-+", 2 $($a)*);
        $m!($crate::algs::Smm, "--", 2 $($a)*);
        $m!($crate::algs::Sppp, "+++", 3 $($a)*);
        $m!($crate::algs::Sppm, "++-", 3 $($a)*);
        $m!($crate::algs::Spmp, "+-+", 3 $($a)*);
        $m!($crate::algs::Spmm, "+--", 3 $($a)*);
        $m!($crate::algs::Smpp, "-++", 3 $($a)*);
        $m!($crate::algs::Smpm, "-+-", 3 $($a)*);
        $m!($crate::algs::Smmp, "--+", 3 $($a)*);
        $m!($crate::algs::Smmm, "---", 3 $($a)*);
        $m!($crate::algs::Spppp, "++++", 4 $($a)*);
        $m!($crate::algs::Spppm, "+++-", 4 $($a)*);
        $m!($crate::algs::Sppmp, "++-+", 4 $($a)*);
        $m!($crate::algs::Sppmm, "++--", 4 $($a)*);
        $m!($crate::algs::Spmpp, "+-++", 4 $($a)*);
        $m!($crate::algs::Spmpm, "+-+-", 4 $($a)*);
        $m!($crate::algs::Spmmp, "+--+", 4 $($a)*);
        $m!($crate::algs::Spmmm, "+---", 4 $($a)*);
        $m!($crate::algs::Smppp, "-+++", 4 $($a)*);
        $m!($crate::algs::Smppm, "-++-", 4 $($a)*);
        $m!($crate::algs::Smpmp, "-+-+", 4 $($a)*);
        $m!($crate::algs::Smpmm, "-+--", 4 $($a)*);
        $m!($crate::algs::Smmpp, "--++", 4 $($a)*);
        $m!($crate::algs::Smmpm, "--+-", 4 $($a)*);
        $m!($crate::algs::Smmmp, "---+", 4 $($a)*);
        $m!($crate::algs::Smmmm, "----", 4 $($a)*);
        $m!($crate::algs::Sppppp, "+++++", 5 $($a)*);
        $m!($crate::algs::Smmmmm, "-----", 5 $($a)*);
        $m!($crate::algs::Spmpmp, "+-+-+", 5 $($a)*);
        $m!($crate::algs::Smmppp, "--+++", 5 $($a)*);
        $m!($crate::algs::Spppppp, "++++++", 6 $($a)*);
        $m!($crate::algs::Smmmmmm, "------", 6 $($a)*);
        $m!($crate::algs::Spmpmpm, "+-+-+-", 6 $($a)*);
        $m!($crate::algs::Smpmpmp, "-+-+-+", 6 $($a)*);
        $m!($crate::algs::Sppppppp, "+++++++", 7 $($a)*);
        $m!($crate::algs::Smpmpmpm, "-+-+-+-", 7 $($a)*);
        $m!($crate::algs::Sppppmmm, "++++---", 7 $($a)*);
        $m!($crate::algs::Spppppppp, "++++++++", 8 $($a)*);
        $m!($crate::algs::Smmmmmmmm, "--------", 8 $($a)*);
        $m!($crate::algs::Spmpmpmpm, "+-+-+-+-", 8 $($a)*);
    };
}
#[macro_export]
macro_rules! for_small3 {
    ($m:ident $($a:tt)*) => {
        $m!($crate::algs::Sp, "+", 1 $($a)*);
        $m!($crate::algs::Sm, "-", 1 $($a)*);
        $m!($crate::algs::Sz, "0", 1 $($a)*);
        $m!($crate::algs::Spp, "++", 2 $($a)*);
        $m!($crate::algs::Spm, "+-", 2 $($a)*);
        $m!($crate::algs::Smp, "-+", 2 $($a)*);
        $m!($crate::algs::Smm, "--", 2 $($a)*);
        $m!($crate::algs::Spz, "+0", 2 $($a)*);
        $m!($crate::algs::Smz, "-0", 2 $($a)*);
        $m!($crate::algs::Szz, "00", 2 $($a)*);
        $m!($crate::algs::Sppp, "+++", 3 $($a)*);
        $m!($crate::algs::Sppm, "++-", 3 $($a)*);
        $m!($crate::algs::Spmp, "+-+", 3 $($a)*);
        $m!($crate::algs::Spmm, "+--", 3 $($a)*);
        $m!($crate::algs::Smpp, "-++", 3 $($a)*);
        $m!($crate::algs::Smpm, "-+-", 3 $($a)*);
        $m!($crate::algs::Smmp, "--+", 3 $($a)*);
        $m!($crate::algs::Smmm, "---", 3 $($a)*);
        $m!($crate::algs::Sppz, "++0", 3 $($a)*);
        $m!($crate::algs::Spmz, "+-0", 3 $($a)*);
        $m!($crate::algs::Smpz, "-+0", 3 $($a)*);
        $m!($crate::algs::Smmz, "--0", 3 $($a)*);
        $m!($crate::algs::Spzz, "+00", 3 $($a)*);
        $m!($crate::algs::Smzz, "-00", 3 $($a)*);
        $m!($crate::algs::Szzz, "000", 3 $($a)*);
    };
}
#[macro_export]
macro_rules! for_pick {
    ($m:ident $($a:tt)*) => {
        $m!($crate::algs::Sp, "+", 1 $($a)*);
        $m!($crate::algs::Sm, "-", 1 $($a)*);
        $m!($crate::algs::Sz, "0", 1 $($a)*);
        $m!($crate::algs::Spm, "+-", 2 $($a)*);
        $m!($crate::algs::Smm, "--", 2 $($a)*);
        $m!($crate::algs::Smz, "-0", 2 $($a)*);
        $m!($crate::algs::Sppm, "++-", 3 $($a)*);
        $m!($crate::algs::Spmm, "+--", 3 $($a)*);
        $m!($crate::algs::Spmz, "+-0", 3 $($a)*);
        $m!($crate::algs::Smzz, "-00", 3 $($a)*);
        $m!($crate::algs::Szzz, "000", 3 $($a)*);
        $m!($crate::algs::Spppp, "++++", 4 $($a)*);
        $m!($crate::algs::Spmmp, "+--+", 4 $($a)*);
        $m!($crate::algs::Smpmz, "-+-0", 4 $($a)*);
        $m!($crate::algs::Spmzz, "+-00", 4 $($a)*);
        $m!($crate::algs::Smmmmm, "-----", 5 $($a)*);
        $m!($crate::algs::Spmpmz, "+-+-0", 5 $($a)*);
    };
}
#[macro_export]
macro_rules! for_pick6 {
    ($m:ident $($a:tt)*) => {
        $m!($crate::algs::Spppppp, "++++++", 6 $($a)*);
        $m!($crate::algs::Spmpmz, "+-+-0", 5 $($a)*);
        $m!($crate::algs::Smppmzz, "-++-00", 6 $($a)*);
        $m!($crate::algs::Szzzzzz, "000000", 6 $($a)*);
        $m!($crate::algs::Spppppmz, "+++++-0", 7 $($a)*);
    };
}
