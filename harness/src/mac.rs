macro_rules! harnesses {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $( $(#[$m])* #[no_mangle] pub extern "C" fn $name() $body )*
        #[cfg(feature = "native")]
        pub static TABLE: &[(&str, fn())] = &[ $( (stringify!($name), { fn f() { $name() } f as fn() }) ),* ];
    };
}
