G="use image::*; use imageproc::*; use imageproc::definitions::*;\n"
SEEDS=[
dict(id="c01-rotate180-middle-row",prop="C01",edits=[("src/geometric_transformations.rs","        let y_middle = height / 2;\n\n        for x in 0..width / 2 {\n            let x180 = width - x - 1;","        let y_middle = height / 2;\n\n        for x in 0..width.min(height) / 2 {\n            let x180 = width - x - 1;")],
 needs="an odd height and a width larger than the height",breaks="rotate180(_mut) leaves part of the middle row unturned",
 demo=G+"fn main(){ let im=GrayImage::from_fn(9,3,|x,y|Luma([(x+10*y) as u8])); let r=geometric_transformations::rotate180(&im); for y in 0..3{for x in 0..9{assert_eq!(r.get_pixel(x,y),im.get_pixel(8-x,2-y));}} }"),
dict(id="c02-overlay-self-size",prop="C02",edits=[("src/compose.rs","            bottom.put_pixel(x_bot, y_bot, *top.get_pixel(x_bot - x, y_bot - y));","            let source = top.get_pixel(x_bot - x, y_bot - y);\n            if source.channels().iter().zip(bottom.get_pixel(x_bot, y_bot).channels()).all(|(a, b)| a != b) {\n                bottom.put_pixel(x_bot, y_bot, *source);\n            }")],
 needs="a multi-channel top pixel that shares one channel value with the pixel beneath it",breaks="replace skips pixels that agree with the bottom in only some channels",
 demo=G+"fn main(){ let b=RgbImage::from_pixel(3,3,Rgb([1,2,3])); let t=RgbImage::from_pixel(2,2,Rgb([1,9,9])); let r=compose::replace(&b,&t,1,1); assert_eq!(*r.get_pixel(2,2),Rgb([1,9,9])); }"),
dict(id="c03-clamp-i32-i16",prop="C03",edits=[("src/definitions.rs","    i32,\n    i16,\n    i16::MIN,\n    i16::MAX,\n    i16::MIN as i32,\n    i16::MAX as i32","    i32,\n    i16,\n    i16::MIN,\n    i16::MAX,\n    -(u16::MAX as i32),\n    i16::MAX as i32")],
 needs="an i32 between -65535 and -32769",breaks="values below i16::MIN wrap to positive values",
 demo=G+"fn main(){ let v:i16=Clamp::clamp(-40000i32); assert_eq!(v,i16::MIN); }"),
dict(id="c04-intersect-far",prop="C04",edits=[("src/rect.rs","if right < left || bottom < top {","if right - left < 0 || bottom - top < 0 {")],
 needs="two rectangles near opposite ends of the coordinate range",breaks="intersect overflows instead of returning None for rectangles far apart",
 demo=G+"use imageproc::rect::Rect; fn main(){ let a=Rect::at(-2000000000,0).of_size(1,1); let b=Rect::at(2000000000,0).of_size(1,1); assert!(a.intersect(b).is_none()); }"),
dict(id="c05-squared-saturates",prop="C05",edits=[("src/integral_image.rs","        self.0.map(|x| x)","        self.0.map(|x| x)")] if False else [("src/integral_image.rs","            for (s, &c) in sum.iter_mut().zip(input.channels()) {\n                let pix: T = c.into();","            for (s, &c) in sum.iter_mut().zip(input.channels().iter().take(3)) {\n                let pix: T = c.into();")],
 needs="an image with four channels",breaks="the fourth channel of an integral image stays zero",
 demo=G+"fn main(){ let im=RgbaImage::from_pixel(2,2,Rgba([1,2,3,4])); let i=integral_image::integral_image::<_,u32>(&im); assert_eq!(*i.get_pixel(2,2),Rgba([4u32,8,12,16])); }"),
dict(id="c06-row-buffer-reuse",prop="C06",edits=[("src/filter/box_filter.rs","    let kernel_height = 2 * y_radius + 1;\n\n    let mut row_buffer","    let kernel_height = 2 * y_radius.min(height) + 1;\n\n    let mut row_buffer")],
 needs="a vertical radius larger than the image height",breaks="the box mean is divided by too few rows when the radius exceeds the height",
 demo=G+"fn main(){ let im=GrayImage::from_pixel(3,3,Luma([30])); let r=filter::box_filter(&im,1,5); assert!(r.pixels().all(|p|p[0]==30)); }"),
dict(id="c09-adaptive-delta",prop="C09",edits=[("src/contrast.rs","            let w = (y_high - y_low + 1) * (x_high - x_low + 1);","            let w = (y_high - y_low + 1) * (x_high - x_low + 1).min(2 * block_radius + 1).min(image.height());")],
 needs="a block wider than the image is high",breaks="the window area is computed from the wrong side when the image is flatter than the block",
 demo=G+"fn main(){ let im=GrayImage::from_pixel(9,1,Luma([30])); let r=contrast::adaptive_threshold(&im,2,0); assert!(r.pixels().all(|p|p[0]==255)); }"),
dict(id="c10-min-max-once",prop="C10",edits=[("src/stats.rs","            if current_min.map_or(true, |x| c < x) {\n                *current_min = Some(c);\n            }\n            if current_max","            if current_min.map_or(true, |x| c < x) {\n                *current_min = Some(c);\n            } else if current_max")],
 needs="a channel whose values strictly decrease in raster order (its maximum is the first pixel)",breaks="min_max panics or reports a maximum that is too small",
 demo=G+"fn main(){ let im=GrayImage::from_vec(3,1,vec![9,5,7]).unwrap(); let m=stats::min_max(&im); assert_eq!((m[0].min,m[0].max),(5,9)); }"),
dict(id="c17-tie-order",prop="C17",edits=[("src/suppress.rs","            if ci > v || (cx, cy) < (x, y) {\n                return true;","            if ci > v || (cy, cx) < (y, x) {\n                return true;")],
 needs="two equal maxima in different cells of the scan, one to the upper right of the other",breaks="ties are decided in (y, x) order across cells, so both or neither of two equal maxima survive",
 demo=G+"fn main(){ let mut im=GrayImage::new(6,6); im.put_pixel(1,2,Luma([9])); im.put_pixel(2,1,Luma([9])); let r=suppress::suppress_non_maximum(&im,1); assert_eq!(r.get_pixel(1,2)[0],9); assert_eq!(r.get_pixel(2,1)[0],0); }"),
dict(id="c19-lbp-flat-image",prop="C19",edits=[("src/local_binary_patterns.rs","    if x == 0 || x >= width - 1 || y == 0 || y >= height - 1 {","    if x == 0 || x >= width - 1 || y == 0 || y >= height - 1 || width.min(height) <= 3 && width != height {")],
 needs="an image exactly three pixels wide (or high) but not square",breaks="interior pixels of 3-pixel-thin images yield no pattern",
 demo=G+"fn main(){ let im=GrayImage::from_pixel(3,5,Luma([4])); assert_eq!(local_binary_patterns::local_binary_pattern(&im,1,2),Some(0)); }"),
dict(id="c20-seam-left-priority",prop="C20",edits=[("src/seam_carving.rs","            if right < min_energy {\n                min_x = last_x + 1;","            if right < above {\n                min_x = last_x + 1;")],
 needs="a row where both diagonal predecessors beat the one directly above and the left one is the better",breaks="the retraced seam is not the minimum-energy seam",
 demo=G+"""fn main(){ // brute force over all seams of small images, energy as documented
 let mut s=1u32; let mut rnd=||{ s=s.wrapping_mul(1664525).wrapping_add(1013904223); (s>>24) as u8 };
 for _ in 0..400 { let im=GrayImage::from_fn(4,4,|_,_|Luma([rnd()]));
  let g=gradients::gradients(&im,kernel::SOBEL_HORIZONTAL_3X3,kernel::SOBEL_VERTICAL_3X3,|p|Luma([p[0] as u32]));
  let mut best=u32::MAX; for c in 0..256usize { let xs=[c%4,c/4%4,c/16%4,c/64]; if xs.windows(2).all(|w|(w[0] as i32-w[1] as i32).abs()<=1){ best=best.min((0..4).map(|y|g.get_pixel(xs[y] as u32,y as u32)[0]).sum()); } }
  let seam=seam_carving::find_vertical_seam(&im); let cut=seam_carving::remove_vertical_seam(&im,&seam);
  // recover some seam consistent with the cut: drawing marks it exactly
  let d=seam_carving::draw_vertical_seams(&im,&[seam]);
  let e:u32=(0..4).map(|y|{ let x=(0..4).find(|&x|d.get_pixel(x,y).0==[255,0,0]).unwrap(); g.get_pixel(x,y)[0]}).sum();
  assert_eq!(e,best); let _=cut; } }"""),
dict(id="c24-cross-far",prop="C24",edits=[("src/drawing/rect.rs","                let x = intersection.left() as u32 + dx;\n                let y = intersection.top() as u32 + dy;","                let x = intersection.left() as u32 + dx;\n                let y = rect.top().max(0) as u32 + dy.min(rect.width().max(canvas_bounds.height() / 2));")],
 needs="a tall, narrow rectangle taller than half the canvas",breaks="the lower part of a tall filled rectangle is not drawn",
 demo=G+"use imageproc::rect::Rect; fn main(){ let im=GrayImage::new(20,20); let r=drawing::draw_filled_rect(&im,Rect::at(3,2).of_size(1,17),Luma([7u8])); for y in 2..19{assert_eq!(r.get_pixel(3,y)[0],7);} }"),
dict(id="c25-fill-leak-right",prop="C25",edits=[("src/drawing/fill.rs","            if x1 - 1 > x2 {","            if x1 - 2 > x2 {")],
 needs="a region whose span grows by exactly one pixel past the parent's end before turning back",breaks="a hook-shaped part of the region is not filled",
 demo=G+"""fn main(){ let mut s=7u32; let mut rnd=||{ s=s.wrapping_mul(1664525).wrapping_add(1013904223); (s>>31) as u8 };
 for _ in 0..3000 { let im=GrayImage::from_fn(5,5,|_,_|Luma([rnd()])); let r=drawing::flood_fill(&im,2,2,Luma([9u8]));
  let t=*im.get_pixel(2,2); let mut m=vec![false;25]; m[12]=true; let mut ch=true; while ch { ch=false; for y in 0..5i32 {for x in 0..5i32 { if !m[(y*5+x) as usize] && *im.get_pixel(x as u32,y as u32)==t { for (dx,dy) in [(0,1),(1,0),(0,-1),(-1,0)] { let (a,b)=(x+dx,y+dy); if a>=0&&b>=0&&a<5&&b<5&&m[(b*5+a) as usize] { m[(y*5+x) as usize]=true; ch=true; } } } }} }
  for y in 0..5u32 {for x in 0..5u32 { assert_eq!(r.get_pixel(x,y)[0], if m[(y*5+x) as usize] {9} else {im.get_pixel(x,y)[0]}); }} } }"""),
dict(id="c26-bits-high-half",prop="C26",edits=[("src/binary_descriptors/brief.rs","            .fold(0, |acc, x| acc + (x.0 ^ x.1).count_ones())","            .fold(0, |acc, x| acc + (x.0 ^ x.1).count_ones().min(127))")],
 needs="two descriptors that differ in every bit of a 128-bit chunk",breaks="the distance of complementary descriptors is one too small per chunk",
 demo=G+"use imageproc::binary_descriptors::{*,brief::*}; fn main(){ let c=corners::Corner::new(0,0,0.0); let a=BriefDescriptor{bits:vec![0;2],corner:c}; let b=BriefDescriptor{bits:vec![u128::MAX;2],corner:c}; assert_eq!(a.hamming_distance(&b),256); }"),
dict(id="c11-from-channel",prop="C11",edits=[("src/map.rs","PLACEHOLDER","")],needs="",breaks="",demo=""),
]
SEEDS=[s for s in SEEDS if s["id"]!="c11-from-channel"]
