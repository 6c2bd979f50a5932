use rust_decimal::prelude::*;
struct R(u64);
impl R{fn n(&mut self)->u64{self.0^=self.0<<13;self.0^=self.0>>7;self.0^=self.0<<17;self.0}}
fn rd(r:&mut R)->Decimal{
 let m=r.n()%4; let bits=(r.n()%97) as u32;
 let mut x=((r.n() as u128)<<64|r.n() as u128)&((1u128<<96)-1); x>>=96-bits.max(1);
 if r.n()%8==0 { x = 10u128.pow((r.n()%29) as u32) } if r.n()%8==0 {x=x.saturating_sub(1)} 
 let s=match m{0=>0,1=>(r.n()%5) as u32,_=>(r.n()%29) as u32};
 let mut d=Decimal::from_i128_with_scale(x as i128,s); if r.n()%2==0{d.set_sign_negative(true)}
 d}
fn p(d:Option<Decimal>)->String{match d{Some(d)=>format!("{},{}",d.mantissa(),d.scale()),None=>"N".into()}}
fn main(){let n:u64=std::env::args().nth(1).unwrap().parse().unwrap();let mut r=R(88172645463325252);
 let mut out=String::new();
 for _ in 0..n{let a=rd(&mut r);let b=rd(&mut r);
 out+=&format!("{} {} {} {} {} {} {} {} {} {} {} {} {} {}\n",p(Some(a)),p(Some(b)),p(a.checked_add(b)),p(a.checked_sub(b)),p(a.checked_mul(b)),p(a.checked_div(b)),p(a.checked_rem(b)),p(Some(a.round())),p(Some(a.fract())),p(Some(a.floor())),p(Some(a.ceil())),p(Some(a.trunc())),a.to_i64().map(|x|x.to_string()).unwrap_or("N".into()),p(Decimal::from_f64(a.abs().to_f64().unwrap().sqrt())));
 } print!("{}",out);}
