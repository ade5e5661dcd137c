//! C27: memory used by palette extraction.
use auto_palette::image::ImageData;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use vharness::driver::*;
use vharness::ensure;
use vharness::image_model::*;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

/// Counts the bytes in use per thread.
struct Counting;

fn add(bytes: isize) {
    // Not available while a thread ends.
    let _ = LIVE.try_with(|live| {
        live.set(live.get() + bytes);
        let _ = PEAK.try_with(|peak| peak.set(peak.get().max(live.get())));
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        add(layout.size() as isize);
        System.alloc(layout)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        add(layout.size() as isize);
        System.alloc_zeroed(layout)
    }
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        add(size as isize - layout.size() as isize);
        System.realloc(p, layout, size)
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        add(-(layout.size() as isize));
        System.dealloc(p, layout)
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

/// Bytes per pixel that extraction may use, and bytes it may use for any image.
const PER_PIXEL: isize = 1024;
const ANY_IMAGE: isize = 256 * 1024;
/// Call stack in which every extraction has to fit.
const STACK: usize = 256 * 1024;
const REPEATS: usize = 3;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MemoryCase {
    image: ImageSpec,
    single: bool,
}

#[derive(Debug)]
struct Use {
    peak: isize,
    left: isize,
    swatches: usize,
}

/// Extract a palette and drop it.
fn extract(image: &ImageData, single: bool) -> Use {
    let before = LIVE.get();
    PEAK.set(before);
    let swatches = if single {
        image.extract::<f32>().len()
    } else {
        image.extract::<f64>().len()
    };
    Use {
        peak: PEAK.get() - before,
        left: LIVE.get() - before,
        swatches,
    }
}

struct Memory;

impl Property for Memory {
    type Case = MemoryCase;
    fn id(&self) -> &'static str {
        "C27"
    }
    fn rule(&self) -> &'static str {
        "Structured images in both precisions, extracted several times in a thread with a call stack of 256 KiB while counting heap bytes. Non-trivial: at least 400 pixels."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["Counts the heap of the extracting thread."]
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(1000, 10000)
    }
    fn strategy(&self, tier: Tier) -> Option<BoxedStrategy<MemoryCase>> {
        // Few, close or identical colours have the largest neighborhoods.
        let close = (size(tier, false), color(), 0u8..6, any::<u64>(), alpha()).prop_map(
            |((w, h), c, spread, seed, alpha)| ImageSpec {
                w,
                h,
                base: if spread == 0 { Fill::Solid(c) } else { Fill::Noise(c, spread, seed) },
                layers: vec![],
                noise: None,
                alpha,
            },
        );
        Some(
            (prop_oneof![3 => any_image(tier, false), 2 => close], any::<bool>())
                .prop_map(|(image, single)| MemoryCase { image, single })
                .boxed(),
        )
    }
    fn enumerated_len(&self, tier: Tier) -> usize {
        tier.pick(16, 56)
    }
    fn enumerated(&self, _tier: Tier, index: usize) -> Self::Case {
        let mut image = large(index / 2);
        if index % 7 == 5 {
            image.base = Fill::Solid([31, 41, 59]);
            (image.w, image.h) = (image.w.min(20_000), image.h.min(20_000));
        }
        MemoryCase {
            image,
            single: index % 2 == 1,
        }
    }
    fn check(&self, c: &MemoryCase) -> Check {
        let data = c.image.render();
        let image = (c.image.w, c.image.h);
        let pixels = c.image.len() as isize;
        let repeats = if pixels > 50_000 { 2 } else { REPEATS };
        let uses = std::thread::scope(|scope| {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(scope, || {
                    let image = ImageData::new(&data, image.0, image.1);
                    let mut uses = Vec::with_capacity(repeats);
                    for _ in 0..repeats {
                        uses.push(sut("extract", || extract(&image, c.single)));
                    }
                    uses
                })
                .expect("a thread")
                .join()
                .expect("no panic")
        });
        let uses = uses.into_iter().collect::<Result<Vec<Use>, String>>()?;
        for u in &uses {
            ensure!(
                u.peak <= PER_PIXEL * pixels + ANY_IMAGE,
                "extraction used {} bytes for {pixels} pixels",
                u.peak
            );
        }
        // The first extraction may fill caches that last.
        ensure!(
            uses[1..].iter().all(|u| u.left <= 0),
            "repeated extractions of {pixels} pixels leave memory behind: {uses:?}"
        );
        let mut labels = vec![if c.single { "f32" } else { "f64" }];
        let worst = uses.iter().map(|u| u.peak).max().unwrap_or(0);
        labels.push(match worst / pixels.max(1) {
            0..=127 => "up to 128 bytes per pixel",
            128..=255 => "up to 256 bytes per pixel",
            256..=511 => "up to 512 bytes per pixel",
            512..=1023 => "up to 1024 bytes per pixel",
            _ => "more bytes per pixel",
        });
        if c.image.len() > 60_000 {
            labels.push("over 60000 pixels");
        }
        if uses[0].swatches > 0 {
            labels.push("with swatches");
        }
        Ok(pass(pixels >= 400, labels))
    }
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C27") => main_with(Memory),
        other => panic!("unknown property {other:?}"),
    }
}
