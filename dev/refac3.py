S="src/samplers/"; C="src/configure/"
P="self.samplers.push(Box::new(sampler));\n        self"
REF=[
dict(id="u1_once_only", edits=[("src/chain.rs",P,"let boxed: Box<dyn Sampler> = Box::new(sampler);\n        self.samplers.extend(std::iter::once(boxed));\n        self")]),
dict(id="u2_append", edits=[("src/chain.rs",P,"let mut more: Vec<Box<dyn Sampler>> = vec![Box::new(sampler)];\n        self.samplers.append(&mut more);\n        self")]),
dict(id="u3_insert", edits=[("src/chain.rs",P,"let at = self.samplers.len();\n        self.samplers.insert(at, Box::new(sampler));\n        self")]),
dict(id="u4_extend_vec", edits=[("src/chain.rs",P,"let more: Vec<Box<dyn Sampler>> = vec![Box::new(sampler)];\n        self.samplers.extend(more);\n        self")]),
dict(id="u5_extend_arr", edits=[("src/chain.rs",P,"let boxed: Box<dyn Sampler> = Box::new(sampler);\n        self.samplers.extend([boxed]);\n        self")]),
]
