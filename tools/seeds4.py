G="use image::*; use imageproc::*; use imageproc::definitions::*;\n"
RND="let mut s=12345u32; let mut rnd=move||{ s=s.wrapping_mul(1664525).wrapping_add(1013904223); (s>>24) as u8 };\n"
SEEDS=[
dict(id="c39-small-perspective",prop="C39",edits=[("src/geometric_transformations.rs","if (mx[6] - 0.0).abs() < 1e-10 && (mx[7] - 0.0).abs() < 1e-10","if (mx[6] - 0.0).abs() < 1e-3 && (mx[7] - 0.0).abs() < 1e-3")],
 needs="a matrix whose perspective entries are below 1e-3 but not zero",breaks="a slight perspective is treated as affine",
 demo=G+"use imageproc::geometric_transformations::*; fn main(){ let p=Projection::from_matrix([1.0,0.0,0.0,0.0,1.0,0.0,0.0009765625/2.0,0.0,1.0]).unwrap(); assert_eq!(p*(2048.0,64.0),(1024.0,32.0)); }"),
dict(id="c17-below-right",prop="C17",edits=[("src/suppress.rs","contains_greater_value(image, best_x, best_y, mi, y2, y3, x0, x3)","contains_greater_value(image, best_x, best_y, mi, y2, y3, x0, cmp::min(x3, x2 + radius / 2 * 2))")],
 needs="an odd radius, a block maximum in the last column of its block and a greater value exactly that radius to its right, below the block",breaks="a value that is not maximal survives",
 demo=G+"fn main(){ let mut im=GrayImage::new(12,12); im.put_pixel(3,3,Luma([5])); im.put_pixel(6,5,Luma([9])); let r=suppress::suppress_non_maximum(&im,3); assert_eq!(r.get_pixel(3,3)[0],0); }"),
dict(id="c25-right-overhang",prop="C25",edits=[("src/drawing/fill.rs","            if x1 - 1 > x2 {","            if x1 - 2 > x2 {")],
 needs="a region that continues backwards only around an overhang of exactly one pixel",breaks="the part beyond a one-pixel overhang is not filled",
 demo=G+"""fn main(){ for seed in 0..400u32 { let mut s=seed.wrapping_mul(2654435761).wrapping_add(9); let mut rnd=||{ s=s.wrapping_mul(1664525).wrapping_add(1013904223); (s>>24) as u8 };
 let im=GrayImage::from_fn(7,6,|_,_|Luma([if rnd()%3==0 {1} else {0}])); let (x,y)=((rnd()%7) as u32,(rnd()%6) as u32); let t=im.get_pixel(x,y)[0];
 let mut e=im.clone(); let mut st=vec![(x,y)]; while let Some((a,b))=st.pop() { if a<7&&b<6&&e.get_pixel(a,b)[0]==t { e.put_pixel(a,b,Luma([9])); st.push((a+1,b)); st.push((a,b+1)); if a>0 {st.push((a-1,b))} if b>0 {st.push((a,b-1))} } }
 assert_eq!(drawing::flood_fill(&im,x,y,Luma([9])),e); } }"""),
dict(id="c28-stretch-float",prop="C28",edits=[("src/contrast.rs","((((c - input_min) * output_width) / input_width) + output_min) as u8","((f32::from(c - input_min) * (f32::from(output_width) / f32::from(input_width))) as u16\n                    + output_min) as u8")],
 needs="values whose exact image is an integer but whose scale factor is not a binary fraction",breaks="some values come out one too small",
 demo=G+"fn main(){ for a in 0..255u8 { for b in a+1..=255 { for w in [255u16,85,100,30,7] { for c in a..=b { let im=GrayImage::from_pixel(1,1,Luma([c])); let r=contrast::stretch_contrast(&im,a,b,0,w as u8); assert_eq!(r.get_pixel(0,0)[0] as u16,(c-a) as u16*w/(b-a) as u16); } } } } }"),
dict(id="c20-energy-cap",prop="C20",edits=[("src/seam_carving.rs","Luma([min_energy + current])","Luma([(min_energy + current).min(u16::MAX as u32)])")],
 needs="an image so tall and busy that every path to some row costs more than 65535",breaks="tall images lose the order of their path energies",
 demo=G+"""fn main(){ let (w,h)=(7u32,300u32); """+RND+"""let im=GrayImage::from_fn(w,h,|_,_|Luma([if rnd()>127 {255} else {0}]));
 let g=gradients::sobel_gradients(&im); let s=seam_carving::find_vertical_seam(&im); let t=seam_carving::remove_vertical_seam(&GrayImage::from_fn(w,h,|x,_|Luma([x as u8])),&s);
 let mut cost=0u64; for y in 0..h { let mut m=w-1; for x in 0..w-1 { if t.get_pixel(x,y)[0]!=x as u8 { m=x; break; } } cost+=g.get_pixel(m,y)[0] as u64; }
 let mut e:Vec<u64>=(0..w).map(|x|g.get_pixel(x,0)[0] as u64).collect(); for y in 1..h { e=(0..w as usize).map(|x|{ let mut m=e[x]; if x>0 {m=m.min(e[x-1])} if x+1<w as usize {m=m.min(e[x+1])} m+g.get_pixel(x as u32,y)[0] as u64 }).collect(); }
 assert_eq!(cost,*e.iter().min().unwrap()); }"""),
dict(id="c12-pop-cap",prop="C12",edits=[("src/distance_transform.rs","        while s <= envelope.boundaries[k] {","        let mut pops = 0;\n        while s <= envelope.boundaries[k] && pops < 64 {\n            pops += 1;")],
 needs="a row or column where one parabola displaces more than 64 earlier ones",breaks="the lower envelope keeps parabolas that are hidden",
 demo=G+"use imageproc::distance_transform::*; fn main(){ let n=120u32; let mut im=GrayImage::new(n+1,n); for x in 0..n { im.put_pixel(x,0,Luma([255])); } for y in 0..n { im.put_pixel(n,y,Luma([255])); } let d=euclidean_squared_distance_transform(&im); for y in 0..n { for x in 0..n { let e=(y*y).min((n-x)*(n-x)); assert_eq!(d.get_pixel(x,y)[0],e as f64,\"{} {}\",x,y); } } }"),
dict(id="c12-wide-row",prop="C12",edits=[("src/distance_transform.rs","                .unsafe_put_pixel(idx as u32, self.row, Luma([value]));","                .unsafe_put_pixel(idx as u16 as u32, self.row, Luma([value]));")],
 needs="an image wider than 65536 pixels",breaks="columns beyond 65535 are not written",
 demo=G+"use imageproc::distance_transform::*; fn main(){ let mut im=GrayImage::new(65540,1); im.put_pixel(65000,0,Luma([255])); let d=euclidean_squared_distance_transform(&im); assert_eq!(d.get_pixel(65539,0)[0],539.0*539.0); }"),
dict(id="c26-hamming-cap",prop="C26",edits=[("src/binary_descriptors/brief.rs","            .zip(other.bits.iter())\n","            .zip(other.bits.iter())\n            .take(4)\n")],
 needs="descriptors of more than 512 bits",breaks="bits beyond the 512th are not compared",
 demo=G+"use imageproc::binary_descriptors::{*,brief::*}; fn main(){ let c=corners::Corner::new(0,0,0.0); let a=BriefDescriptor{bits:vec![0;5],corner:c}; let b=BriefDescriptor{bits:vec![0,0,0,0,7],corner:c}; assert_eq!(a.hamming_distance(&b),3); }"),
dict(id="c30-brief-unclamped",prop="C30",edits=[("src/binary_descriptors/brief.rs","    let x_max = u32::min(x + radius + 1, integral_image.width() - 1);","    let x_max = x + radius + 1;")],
 needs="test pairs supplied by the caller that reach beyond the right border",breaks="pixels right of the integral image are read unchecked",
 demo=G+"use imageproc::{binary_descriptors::brief::*,point::Point}; fn main(){ let im=GrayImage::from_fn(40,40,|x,_|Luma([x as u8])); for k in 20..25u32 { for q in 0..31u32 { let tp=vec![TestPair{p0:Point::new(q,20),p1:Point::new(0,20)};128]; let (d,_)=brief(&im,&[Point::new(k,20)],128,Some(&tp)).unwrap(); assert_eq!(d[0].bits,vec![0],\"{} {}\",k,q); } } }"),
dict(id="c10-percentile-float",prop="C10",edits=[("src/stats.rs","        if 100 * cum_hist[i] as u64 / total >= p as u64 {","        if (cum_hist[i] as f32 / total as f32 * 100.0) as u64 >= p as u64 {")],
 needs="a pixel count and percentile where the single-precision quotient falls just below the exact one",breaks="the percentile is too high by one step",
 demo=G+"fn main(){ for n in 2..200u32 { let im=GrayImage::from_fn(n,1,|x,_|Luma([x as u8])); for p in 0..=100u8 { let e=(0..n).find(|i|100*(i+1)/n>=p as u32).unwrap(); assert_eq!(stats::percentile(&im,p) as u32,e,\"{} {}\",n,p); } } }"),
dict(id="c37-wide-i16",prop="C37",edits=[("src/filter/bilateral.rs","                let window_x = (i32::from(w_x) + (x as i32)).clamp(0, (width as i32) - 1);","                let window_x = i32::from(w_x.saturating_add(x as i16)).clamp(0, (width as i32) - 1);")],
 needs="an image wider than 32767 pixels",breaks="columns beyond 32767 take their values from the first column",
 demo=G+"use imageproc::filter::bilateral::*; struct D; impl ColorDistance<Luma<u8>> for D { fn color_distance(&self,_:&Luma<u8>,_:&Luma<u8>)->f32 {1.0} } fn main(){ let im=GrayImage::from_fn(40000,1,|x,_|Luma([if x<20000 {10} else {200}])); let r=bilateral_filter(&im,1,1.0,D); let v=r.get_pixel(39990,0)[0]; assert!(v>=199,\"{}\",v); }"),
dict(id="c36-alpha-skip",prop="C36",edits=[("src/noise.rs","        for c in p.channels_mut() {","        for c in p.channels_mut().iter_mut().take(3) {")],
 needs="an image with four channels",breaks="the fourth channel gets no noise",
 demo=G+"fn main(){ let im=RgbaImage::from_pixel(9,9,Rgba([128,128,128,128])); let r=noise::gaussian_noise(&im,0.0,20.0,3); assert!(r.pixels().any(|p|p[3]!=128)); }"),
dict(id="c18-fast9-either",prop="C18",edits=[("src/corners.rs","    (above && has_bright_span(&pixels, 9, high_thresh))\n        || (below && has_dark_span(&pixels, 9, low_thresh))","    if above {\n        has_bright_span(&pixels, 9, high_thresh)\n    } else {\n        has_dark_span(&pixels, 9, low_thresh)\n    }")],
 needs="a dark corner two of whose adjacent compass pixels outside the arc are bright",breaks="such dark corners are missed",
 demo=G+"""fn main(){ let o:[(i32,i32);16]=[(0,-3),(1,-3),(2,-2),(3,-1),(3,0),(3,1),(2,2),(1,3),(0,3),(-1,3),(-2,2),(-3,1),(-3,0),(-3,-1),(-2,-2),(-1,-3)]; for s in 0..16 { let mut im=GrayImage::from_pixel(7,7,Luma([100])); for i in 0..16 { let (x,y)=o[(s+i)%16]; im.put_pixel((3+x) as u32,(3+y) as u32,Luma([if i<9 {10} else {200}])); } assert_eq!(corners::corners_fast9(&im,20).len(),1,"{}",s); } }"""),
dict(id="c33-ellipse-large",prop="C33",edits=[("src/drawing/conics.rs","    let w2 = (width_radius as f32).powi(2);","    let w2 = (width_radius * width_radius) as f32;")],
 needs="an ellipse with a horizontal radius above 46340",breaks="drawing a very wide ellipse fails or goes astray",
 demo=G+"fn main(){ let im=GrayImage::new(20,20); let r=drawing::draw_hollow_ellipse(&im,(10-50000,10),50000,6,Luma([1])); assert_eq!(r.get_pixel(10,10)[0],1); }"),
dict(id="c02-replace-offset",prop="C02",edits=[("src/compose.rs","    let x_end = min(bottom.width(), x + top.width());\n    let y_end = min(bottom.height(), y + top.height());\n\n    for y_bot in y..y_end {\n        for x_bot in x..x_end {\n            bottom.put_pixel(","    let x_end = min(bottom.width(), x + top.width());\n    let y_end = min(bottom.height(), y + top.height());\n    if x_end - x < top.width() && y_end == y + 1 {\n        return;\n    }\n\n    for y_bot in y..y_end {\n        for x_bot in x..x_end {\n            bottom.put_pixel(")],
 needs="a replacement cut off at the right border of which one row lies inside",breaks="such a replacement is not drawn",
 demo=G+"fn main(){ let b=GrayImage::new(4,4); let t=GrayImage::from_pixel(3,3,Luma([7])); let r=compose::replace(&b,&t,2,3); assert_eq!(r.get_pixel(3,3)[0],7); }"),
]
SEEDS=[s for s in SEEDS if s["needs"]]
