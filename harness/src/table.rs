//! All checks with their case counts (quick, thorough, small = interpreter or emulator).
use crate::engine::Check;

macro_rules! t {
    ($v:ident; $($prop:literal $name:literal $m:ident :: $f:ident $q:literal $t:literal $s:literal $d:literal;)*) => {
        $($v.push(Check { prop: $prop, name: $name, f: crate::$m::$f, quick: $q, thorough: $t, small: $s, digest: $d });)*
    };
}

pub fn checks() -> Vec<Check> {
    let mut v = Vec::new();
    t! { v;
        "C01" "c01_stream" p_stream::c01_stream 60000 6000000 40 true;
        "C01" "c01_big"    p_stream::c01_big    24 1200 0 true;
        "C02" "c02_stream" p_stream::c02_stream 60000 6000000 20 true;
        "C02" "c02_big"    p_stream::c02_big    24 1200 0 true;
        "C02" "c02_subkey" p_stream::c02_subkey 200000 20000000 40 true;
        "C02" "c02_compose" p_stream::c02_compose 40000 4000000 10 true;
        "C03" "c03_stream" p_stream::c03_stream 60000 6000000 20 true;
        "C03" "c03_big"    p_stream::c03_big    24 1200 0 true;
        "C03" "c03_raw"    p_stream::c03_raw    40000 4000000 12 true;
        "C04" "c04_stream" p_stream::c04_stream 20000 2000000 20 true;
        "C04" "c04_inner"  p_stream::c04_inner  20000 2000000 10 true;
        "C05" "c05_stream" p_stream::c05_stream 12000 1000000 1 true;
        "C06" "c06_stream" p_stream::c06_stream 20000 2000000 8 true;
        "C06" "c06_keylen" p_stream::c06_keylen 40000 4000000 16 true;
        "C08" "c08_chunks" p_stream::c08_chunks 30000 3000000 20 true;
        "C08" "c08_split"  p_stream::c08_split  30000 3000000 20 true;
        "C09" "c09_xor"    p_stream::c09_xor    30000 3000000 20 true;
        "C10" "c10_history" p_stream::c10_history 60000 6000000 20 true;
        "C10" "c10_routes" p_stream::c10_routes 40000 4000000 12 true;
        "C11" "c11_end"    p_stream::c11_end    60000 6000000 20 true;
        "C11" "c11_mismatch" p_stream::c11_mismatch 20000 2000000 10 true;
        "C07" "c07_cipher" p_core::c07_cipher 20000 1500000 24 true;
        "C18" "c18_calls" p_ctor::c18_calls 100000 10000000 20 false;
        "C19" "c19_secrets" p_ct::c19_secrets 400 12000 0 false;
        "C20" "c20_lengths" p_ctor::c20_lengths 200000 10000000 20 true;
        "C20" "c20_bits" p_ctor::c20_bits 6000 600000 2 true;
        "C20" "c20_same" p_ctor::c20_same 20000 2000000 6 true;
        "C21" "c21_history" p_core::c21_history 60000 6000000 24 false;
        "C15" "c15_interleaved" p_subj::c15_interleaved 30000 2000000 10 true;
        "C15" "c15_threads" p_subj::c15_threads 6000 300000 0 false;
        "C16" "c16_marker" p_wipe::c16_marker 400 400 0 false;
        "C16" "c16_wipe" p_wipe::c16_wipe 60000 3000000 0 false;
        "C17" "c17_debug" p_subj::c17_debug 40000 2000000 6 false;
        "C21" "c21_get_core" p_core::c21_get_core 10000 500000 4 true;
    }
    t! { v;
        "C22" "c22_any" p_cross::c22_any 20000 400000 400 true;
        "C22" "c22_hc" p_cross::c22_hc 200 2000 1 true;
    }
    #[cfg(not(miri))]
    t! { v;
        "C01" "c01_long" p_long::c01_long 1 100 0 false;
        "C01" "c01_huge" p_long::c01_huge 4 24 0 false;
        "C02" "c02_long" p_long::c02_long 1 100 0 false;
        "C02" "c02_huge" p_long::c02_huge 4 24 0 false;
        "C03" "c03_long" p_long::c03_long 1 100 0 false;
        "C03" "c03_huge" p_long::c03_huge 4 24 0 false;
        "C04" "c04_long" p_long::c04_long 2 100 0 false;
        "C04" "c04_huge" p_long::c04_huge 2 8 0 false;
        "C05" "c05_long" p_long::c05_long 2 100 0 false;
        "C05" "c05_huge" p_long::c05_huge 2 8 0 false;
        "C06" "c06_long" p_long::c06_long 2 100 0 false;
        "C06" "c06_huge" p_long::c06_huge 2 8 0 false;
        "C18" "c18_bounds" p_mem::c18_bounds 60000 6000000 0 false;
    }
    #[cfg(all(feature = "cc_rng", not(miri)))]
    t! { v;
        "C12" "c12_long" p_long::c12_long 1 100 0 false;
        "C12" "c12_huge" p_long::c12_huge 4 24 0 false;
    }
    #[cfg(feature = "cc_rng")]
    t! { v;
        "C07" "c07_generator" p_core::c07_generator 20000 1500000 16 true;
        "C07" "c07_rng" p_rng::c13_account 20000 1500000 12 true;
        "C12" "c12_output" p_rng::c12_output 40000 6000000 20 true;
        "C12" "c12_seeding" p_rng::c12_seeding 20000 1000000 8 true;
        "C12" "c12_rare" p_rng::c12_rare 10000 1000000 10 true;
        "C13" "c13_account" p_rng::c13_account 60000 6000000 20 true;
        "C14" "c14_roundtrip" p_rng::c14_roundtrip 40000 4000000 10 true;
        "C14" "c14_any_image" p_rng::c14_any_image 40000 4000000 10 true;
        "C14" "c14_equality" p_rng::c14_equality 60000 6000000 12 true;
    }
    #[cfg(all(feature = "cc_rng", feature = "cc_legacy"))]
    t! { v;
        "C12" "c12_cipher" p_rng::c12_cipher 40000 4000000 10 true;
    }
    v
}
