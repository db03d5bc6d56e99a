//! Type-level witness: this crate builds just when every type named here can be sent to, and shared
//! between, threads. Nothing is executed. One obligation per line `sends`/`shares`.
#![allow(dead_code, unused, bare_trait_objects)]
use llm_samplers::{configure::*, prelude::*};
use std::sync::{Arc, Mutex};

fn sends<T: Send + ?Sized>() {}
fn shares<T: Sync + ?Sized>() {}

macro_rules! crosses {
    ($($name:ident $t:ty;)*) => {
        $(
            mod $name {
                use super::*;
                fn witness() {
                    sends::<$t>();
                    shares::<$t>();
                }
            }
        )*
    };
}

// every sampler, whoever wrote it: by the trait alone
mod any_sampler {
    use super::*;
    fn witness<S: Sampler + ?Sized>() {
        sends::<S>();
        shares::<S>();
    }
}
mod any_buildable_sampler {
    use super::*;
    fn witness<S: BuildableSampler<usize, f32> + ?Sized>() {
        sends::<S>();
        shares::<S>();
    }
}

crosses! {
    boxed_sampler Box<dyn Sampler>;
    shared_sampler Arc<Mutex<dyn Sampler>>;
    boxed_buildable_sampler Box<dyn BuildableSampler<usize, f32>>;
    chain SamplerChain;
    flat_bias SampleFlatBias;
    freq_presence SampleFreqPresence;
    greedy SampleGreedy;
    locally_typical SampleLocallyTypical;
    min_p SampleMinP;
    mirostat1 SampleMirostat1;
    mirostat2 SampleMirostat2;
    rand_distrib SampleRandDistrib;
    repetition SampleRepetition;
    seq_repetition SampleSeqRepetition;
    tail_free SampleTailFree;
    temperature SampleTemperature;
    top_a SampleTopA;
    top_k SampleTopK;
    top_p SampleTopP;
    candidate Logit;
    candidates Logits;
    no_resources NilSamplerResources;
    resources SimpleSamplerResources;
    sampler_error SamplerError;
    candidates_error LogitsError;
    configure_error ConfigureSamplerError;
    build_error BuildSamplersError;
    metadata SamplerMetadata;
    option_metadata SamplerOptionMetadata;
    option_type SamplerOptionType;
    option_value SamplerOptionValue<'static>;
    options SamplerOptions<SamplerOptionValue<'static>>;
}
