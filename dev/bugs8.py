exec(open("/verif/dev/bugs2.py").read().split("BUGS")[0])
BUGS = [
dict(id="b75", property="C49", needs="an option key that several options begin with",
  breaks="an ambiguous key is reported as unknown",
  edits=[(C+"metadata.rs","            Err(ConfigureSamplerError::AmbiguousKey(key.to_string()))?","            Err(ConfigureSamplerError::UnknownOrBadType(key.to_string()))?")],
  main='''let mut s = SampleTopA::default(); let e = s.set_option("a", SamplerOptionValue::Float(1.0)).unwrap_err();
 assert_eq!(e.downcast_ref::<ConfigureSamplerError>(), Some(&ConfigureSamplerError::AmbiguousKey("a".to_string())));'''),
dict(id="b76", property="C49", needs="a builder in which the sampler in a slot refuses its configuration",
  breaks="the error of a slot holding several samplers loses the name of the slot",
  edits=[(C+"building.rs","                fresh.configure(s).map_err(cfgerr)?;\n                samplers.push(fresh);","                fresh.configure(s)?;\n                samplers.push(fresh);")],
  main='''let mut b: SamplerChainBuilder<usize, f32> = SamplerChainBuilder::default();
 b.push_slot("k".to_string(), SamplerSlot::new_chain(|| Box::new(SampleTopK::default()), []));
 let e = b.configure("k", "nope=1").unwrap_err();
 match e.downcast_ref::<BuildSamplersError>() { Some(BuildSamplersError::ConfigureFailed { name, .. }) => assert_eq!(name, "k"), _ => panic!("{e:?}") }'''),
dict(id="b77", property="C49", needs="a number too large for the option of a sampler with narrow numbers",
  breaks="a number that does not fit is reported as a value of the wrong type",
  edits=[(C+"configurable.rs","                *rv = UI::from_u64(v)\n                    .ok_or_else(|| ConfigureSamplerError::ConversionFailure(key.to_string()))?","                *rv = UI::from_u64(v)\n                    .ok_or_else(|| ConfigureSamplerError::UnknownOrBadType(key.to_string()))?")],
  items='''
#[derive(Debug)] struct Own(u8);
impl Sampler for Own { fn sample<'a>(&mut self, _r: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> { Ok(l) } }
fn e() -> SamplerOptionMetadata { SamplerOptionMetadata { key: "u", description: None, option_type: SamplerOptionType::UInt } }
impl ConfigurableSampler<u8, f32> for Own {}
impl HasSamplerMetadata<u8, f32> for Own {
 fn sampler_metadata(&self) -> SamplerMetadata { SamplerMetadata { name: "own", description: None, options: vec![e()] } }
 fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, u8, f32>> { SamplerOptions::from(vec![(e(), Some(SamplerOptionValue::UInt(self.0)))]) }
 fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, u8, f32>> { SamplerOptions::from(vec![(e(), Some(SamplerOptionValueMut::UInt(&mut self.0)))]) }
}
''',
  main='''let e = Own(1).set_option("u", SamplerOptionValue::UInt(300)).unwrap_err();
 assert_eq!(e.downcast_ref::<ConfigureSamplerError>(), Some(&ConfigureSamplerError::ConversionFailure("u".to_string())));'''),
]
