use crate::engine::Ctx;

#[cfg(feature = "builder")]
mod builder;
#[cfg(any(feature = "codec", feature = "life"))]
mod codec;
#[cfg(feature = "ident")]
mod ident;
#[cfg(feature = "life")]
mod life;
#[cfg(feature = "money")]
mod money;
#[cfg(feature = "nostd")]
mod nostd;
#[cfg(feature = "parts")]
mod parts;
#[cfg(feature = "random")]
mod random;
#[cfg(feature = "roots")]
mod roots;
#[cfg(feature = "signing")]
mod signing;
#[cfg(feature = "text")]
mod text;
#[cfg(feature = "validity")]
mod validity;

pub fn run(id: &str, ctx: &mut Ctx) -> bool {
    match id {
        #[cfg(feature = "codec")]
        "C01" => codec::c01(ctx),
        #[cfg(feature = "codec")]
        "C02" => codec::c02(ctx),
        #[cfg(feature = "codec")]
        "C03" => codec::c03(ctx),
        #[cfg(feature = "codec")]
        "C04" => codec::c04(ctx),
        #[cfg(feature = "codec")]
        "C05" => codec::c05(ctx),
        #[cfg(feature = "codec")]
        "C06" => codec::c06(ctx),
        #[cfg(feature = "text")]
        "C07" => text::c07(ctx),
        #[cfg(feature = "text")]
        "C08" => text::c08(ctx),
        #[cfg(feature = "ident")]
        "C09" => ident::c09(ctx),
        #[cfg(feature = "ident")]
        "C10" => ident::c10(ctx),
        #[cfg(feature = "ident")]
        "C11" => ident::c11(ctx),
        #[cfg(feature = "ident")]
        "C12" => ident::c12(ctx),
        #[cfg(feature = "parts")]
        "C13" => parts::c13(ctx),
        #[cfg(feature = "signing")]
        "C14" => signing::c14(ctx),
        #[cfg(feature = "signing")]
        "C15" => signing::c15(ctx),
        #[cfg(feature = "signing")]
        "C16" => signing::c16(ctx),
        #[cfg(feature = "validity")]
        "C17" => validity::c17(ctx),
        #[cfg(feature = "validity")]
        "C18" => validity::c18(ctx),
        #[cfg(feature = "validity")]
        "C19" => validity::c19(ctx),
        #[cfg(feature = "validity")]
        "C20" => validity::c20(ctx),
        #[cfg(feature = "money")]
        "C21" => money::c21(ctx),
        #[cfg(feature = "money")]
        "C22" => money::c22(ctx),
        #[cfg(feature = "money")]
        "C23" => money::c23(ctx),
        #[cfg(feature = "money")]
        "C24" => money::c24(ctx),
        #[cfg(feature = "roots")]
        "C25" => roots::c25(ctx),
        #[cfg(feature = "roots")]
        "C26" => roots::c26(ctx),
        #[cfg(feature = "parts")]
        "C27" => parts::c27(ctx),
        #[cfg(feature = "parts")]
        "C28" => parts::c28(ctx),
        #[cfg(feature = "builder")]
        "C29" => builder::c29(ctx),
        #[cfg(feature = "parts")]
        "C30" => parts::c30(ctx),
        #[cfg(feature = "nostd")]
        "C31" => nostd::c31(ctx),
        #[cfg(feature = "parts")]
        "C32" => parts::c32(ctx),
        #[cfg(feature = "parts")]
        "C33" => parts::c33(ctx),
        #[cfg(feature = "parts")]
        "C34" => parts::c34(ctx),
        #[cfg(feature = "random")]
        "C35" => random::c35(ctx),
        #[cfg(feature = "life")]
        "C36" => life::c36(ctx),
        #[cfg(feature = "life")]
        "C37" => life::c37(ctx),
        _ => return false,
    }
    true
}
