//! The entry points, exported by name for the engine and looked up by name for replays.
macro_rules! entries {
    ($($m:path => $n:ident;)*) => {
        mod ex {
            $(#[no_mangle] pub extern "C" fn $n() { $m() })*
        }
        pub fn lookup(n: &str) -> Option<extern "C" fn()> {
            match n {
                $(stringify!($n) => Some(ex::$n as extern "C" fn()),)*
                _ => None,
            }
        }
    };
}
entries! {
    crate::block::h_idct => h_idct;
    crate::block::h_block => h_block;
    crate::block::h_qtable => h_qtable;
    crate::block::h_qdef => h_qdef;
    crate::block::h_qbad => h_qbad;
    crate::block::h_dcwrap => h_dcwrap;
    crate::block::h_badblock => h_badblock;
    crate::geom::h_sof => h_sof;
    crate::geom::h_scale => h_scale;
    crate::geom::h_limit => h_limit;
    crate::geom::h_layout => h_layout;
    crate::color::h_color => h_color;
    crate::color::h_transform => h_transform;
    crate::up::h_up => h_up;
    crate::prog::h_prog => h_prog;
    crate::scan::h_restart => h_restart;
    crate::scan::h_rstmark => h_rstmark;
    crate::sched::h_sched => h_sched;
    crate::robust::h_raw => h_raw;
    crate::robust::h_ent => h_ent;
    crate::robust::h_big => h_big;
    crate::robust::h_format => h_format;
    crate::robust::h_fact => h_fact;
    crate::lossless::h_lossless => h_lossless;
    crate::meta::h_icc => h_icc;
    crate::meta::h_iccmany => h_iccmany;
    crate::meta::h_app1 => h_app1;
    crate::meta::h_skip => h_skip;
    crate::meta::h_skiplong => h_skiplong;
    crate::meta::h_stuff => h_stuff;
    crate::meta::h_stop => h_stop;
    crate::meta::h_len => h_len;
    crate::meta::h_len01 => h_len01;
    crate::fault::h_reader => h_reader;
    crate::fault::h_trunc => h_trunc;
    crate::fault::h_api => h_api;
    crate::fault::h_mjpeg => h_mjpeg;
    crate::fault::h_mjpeg23 => h_mjpeg23;
    crate::huff::h_huff => h_huff;
    crate::huff::h_hufft => h_hufft;
    crate::huff::h_dht => h_dht;
    crate::meta::h_metalong => h_metalong;
    crate::color::h_adobe => h_adobe;
    crate::scan::h_dri => h_dri;
    crate::block::h_qmiss => h_qmiss;
    crate::block::h_pairs => h_pairs;
    crate::block::h_balign => h_balign;
    crate::huff::h_halign => h_halign;
    crate::huff::h_dest => h_dest;
}
