%source dep:miasht-0.0.5/src/method.rs
%skip use -- formatting
%skip impl Method -- text of methods: not modelled
%skip impl Display@Method -- formatting
%skip impl fmt::Display@Method -- formatting
%skip impl Hash@Method -- hashing
%derive Method Clone, Copy, PartialEq, Eq, Structural
