SPECIFICATION Spec
CONSTANTS MaxLines = 3
INVARIANTS RoundTrip Encodings TemplateKeepsCodes SelfSame
