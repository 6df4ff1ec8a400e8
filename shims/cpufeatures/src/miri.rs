//! Under the interpreter, the CPU has the features which the build enables for every function.
//! (The original reports every feature as absent there.)

#[macro_export]
#[doc(hidden)]
macro_rules! __unless_target_features {
    ($($tf:tt),+ => $body:expr ) => {
        cfg!(all($(target_feature = $tf),+))
    };
}

#[macro_export]
#[doc(hidden)]
macro_rules! __detect_target_features {
    ($($tf:tt),+) => {
        cfg!(all($(target_feature = $tf),+))
    };
}
