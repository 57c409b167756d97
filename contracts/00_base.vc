%droptrait PrintProgramError DecodeError
%file lib.rs
%item
global size_of usize == 8;
%file utils.rs
%fn invariant
%skip
