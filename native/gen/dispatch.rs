use crate::vp_util::Ctx;

pub fn run(c: &mut Ctx, p: &str) {
    let _ = (&c, p);
    #[cfg(feature = "template")]
    crate::template::vp_companion::run(c, p);
    #[cfg(feature = "method")]
    crate::method::vp_companion::run(c, p);
    #[cfg(feature = "util")]
    crate::util::vp_companion::run(c, p);
    #[cfg(feature = "lib")]
    crate::vp_companion::run(c, p);
    #[cfg(feature = "cli")]
    crate::cli::vp_companion::run(c, p);
    #[cfg(feature = "to_schema")]
    crate::to_schema::vp_companion::run(c, p);
    #[cfg(feature = "macro_items")]
    crate::macro_items::vp_companion::run(c, p);
    #[cfg(feature = "macro_api")]
    crate::macro_api::vp_companion::run(c, p);
}
