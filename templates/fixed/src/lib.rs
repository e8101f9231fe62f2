// Written by tools/gen_template.py.
#![allow(unused, non_snake_case, improper_ctypes_definitions)]
use svm_sdk::{template, Address, Amount};

#[template]
mod Fixed {
    #[storage]
    struct Storage {
        v_bool: bool,
        r_bool: [bool; 3],
        v_i8: i8,
        r_i8: [i8; 10],
        v_u8: u8,
        r_u8: [u8; 7],
        v_i16: i16,
        r_i16: [i16; 1],
        v_u16: u16,
        r_u16: [u16; 9],
        v_i32: i32,
        r_i32: [i32; 8],
        v_u32: u32,
        r_u32: [u32; 5],
        v_i64: i64,
        r_i64: [i64; 2],
        v_u64: u64,
        r_u64: [u64; 4],
        v_amount: Amount,
        r_amount: [Amount; 6],
        v_address: Address,
        r_address: [Address; 3],
        last: u16,
    }

    #[ctor]
    fn first(a: bool, b: i8, c: u16, d: u32, e: i64, f: Amount, g: Address) -> u64 {
        Storage::set_v_bool(a);
        Storage::set_v_i8(b);
        Storage::set_v_u16(c);
        Storage::set_v_u32(d);
        Storage::set_v_i64(e);
        Storage::set_v_amount(f);
        Storage::set_v_address(&g);
        Storage::set_last(78);
        f.0
    }

    #[ctor]
    fn nothing() {
    }

    #[endpoint]
    fn set_i8(x: i8) {
        Storage::set_v_i8(x);
    }

    #[endpoint]
    fn get_i8() -> i8 {
        Storage::get_v_i8()
    }

    #[endpoint]
    fn put_i8(i: u32, x: i8) {
        Storage::set_r_i8(i as usize, x);
    }

    #[endpoint]
    fn take_i8(i: u32) -> i8 {
        Storage::get_r_i8(i as usize)
    }

    #[endpoint]
    fn all_i8() -> [i8; 10] {
        [Storage::get_r_i8(0), Storage::get_r_i8(1), Storage::get_r_i8(2), Storage::get_r_i8(3), Storage::get_r_i8(4), Storage::get_r_i8(5), Storage::get_r_i8(6), Storage::get_r_i8(7), Storage::get_r_i8(8), Storage::get_r_i8(9)]
    }

    #[endpoint]
    fn echo_i8(x: i8) -> i8 {
        x
    }

    #[endpoint]
    fn swap_i8(i: u32, x: i8) -> (i8, i8) {
        let was = Storage::get_r_i8(i as usize);
        let other = Storage::get_v_i8();
        Storage::set_r_i8(i as usize, x);
        (other, was)
    }

    #[endpoint]
    fn set_u8(x: u8) {
        Storage::set_v_u8(x);
    }

    #[endpoint]
    fn get_u8() -> u8 {
        Storage::get_v_u8()
    }

    #[endpoint]
    fn put_u8(i: u32, x: u8) {
        Storage::set_r_u8(i as usize, x);
    }

    #[endpoint]
    fn take_u8(i: u32) -> u8 {
        Storage::get_r_u8(i as usize)
    }

    #[endpoint]
    fn all_u8() -> [u8; 7] {
        [Storage::get_r_u8(0), Storage::get_r_u8(1), Storage::get_r_u8(2), Storage::get_r_u8(3), Storage::get_r_u8(4), Storage::get_r_u8(5), Storage::get_r_u8(6)]
    }

    #[endpoint]
    fn echo_u8(x: u8) -> u8 {
        x
    }

    #[endpoint]
    fn swap_u8(i: u32, x: u8) -> (u8, u8) {
        let was = Storage::get_r_u8(i as usize);
        let other = Storage::get_v_u8();
        Storage::set_r_u8(i as usize, x);
        (other, was)
    }

    #[endpoint]
    fn set_i16(x: i16) {
        Storage::set_v_i16(x);
    }

    #[endpoint]
    fn get_i16() -> i16 {
        Storage::get_v_i16()
    }

    #[endpoint]
    fn put_i16(i: u32, x: i16) {
        Storage::set_r_i16(i as usize, x);
    }

    #[endpoint]
    fn take_i16(i: u32) -> i16 {
        Storage::get_r_i16(i as usize)
    }

    #[endpoint]
    fn all_i16() -> [i16; 1] {
        [Storage::get_r_i16(0)]
    }

    #[endpoint]
    fn echo_i16(x: i16) -> i16 {
        x
    }

    #[endpoint]
    fn swap_i16(i: u32, x: i16) -> (i16, i16) {
        let was = Storage::get_r_i16(i as usize);
        let other = Storage::get_v_i16();
        Storage::set_r_i16(i as usize, x);
        (other, was)
    }

    #[endpoint]
    fn set_u16(x: u16) {
        Storage::set_v_u16(x);
    }

    #[endpoint]
    fn get_u16() -> u16 {
        Storage::get_v_u16()
    }

    #[endpoint]
    fn put_u16(i: u32, x: u16) {
        Storage::set_r_u16(i as usize, x);
    }

    #[endpoint]
    fn take_u16(i: u32) -> u16 {
        Storage::get_r_u16(i as usize)
    }

    #[endpoint]
    fn all_u16() -> [u16; 9] {
        [Storage::get_r_u16(0), Storage::get_r_u16(1), Storage::get_r_u16(2), Storage::get_r_u16(3), Storage::get_r_u16(4), Storage::get_r_u16(5), Storage::get_r_u16(6), Storage::get_r_u16(7), Storage::get_r_u16(8)]
    }

    #[endpoint]
    fn echo_u16(x: u16) -> u16 {
        x
    }

    #[endpoint]
    fn swap_u16(i: u32, x: u16) -> (u16, u16) {
        let was = Storage::get_r_u16(i as usize);
        let other = Storage::get_v_u16();
        Storage::set_r_u16(i as usize, x);
        (other, was)
    }

    #[endpoint]
    fn set_i32(x: i32) {
        Storage::set_v_i32(x);
    }

    #[endpoint]
    fn get_i32() -> i32 {
        Storage::get_v_i32()
    }

    #[endpoint]
    fn put_i32(i: u32, x: i32) {
        Storage::set_r_i32(i as usize, x);
    }

    #[endpoint]
    fn take_i32(i: u32) -> i32 {
        Storage::get_r_i32(i as usize)
    }

    #[endpoint]
    fn all_i32() -> [i32; 8] {
        [Storage::get_r_i32(0), Storage::get_r_i32(1), Storage::get_r_i32(2), Storage::get_r_i32(3), Storage::get_r_i32(4), Storage::get_r_i32(5), Storage::get_r_i32(6), Storage::get_r_i32(7)]
    }

    #[endpoint]
    fn echo_i32(x: i32) -> i32 {
        x
    }

    #[endpoint]
    fn swap_i32(i: u32, x: i32) -> (i32, i32) {
        let was = Storage::get_r_i32(i as usize);
        let other = Storage::get_v_i32();
        Storage::set_r_i32(i as usize, x);
        (other, was)
    }

    #[endpoint]
    fn set_u32(x: u32) {
        Storage::set_v_u32(x);
    }

    #[endpoint]
    fn get_u32() -> u32 {
        Storage::get_v_u32()
    }

    #[endpoint]
    fn put_u32(i: u32, x: u32) {
        Storage::set_r_u32(i as usize, x);
    }

    #[endpoint]
    fn take_u32(i: u32) -> u32 {
        Storage::get_r_u32(i as usize)
    }

    #[endpoint]
    fn all_u32() -> [u32; 5] {
        [Storage::get_r_u32(0), Storage::get_r_u32(1), Storage::get_r_u32(2), Storage::get_r_u32(3), Storage::get_r_u32(4)]
    }

    #[endpoint]
    fn echo_u32(x: u32) -> u32 {
        x
    }

    #[endpoint]
    fn swap_u32(i: u32, x: u32) -> (u32, u32) {
        let was = Storage::get_r_u32(i as usize);
        let other = Storage::get_v_u32();
        Storage::set_r_u32(i as usize, x);
        (other, was)
    }

    #[endpoint]
    fn set_i64(x: i64) {
        Storage::set_v_i64(x);
    }

    #[endpoint]
    fn get_i64() -> i64 {
        Storage::get_v_i64()
    }

    #[endpoint]
    fn put_i64(i: u32, x: i64) {
        Storage::set_r_i64(i as usize, x);
    }

    #[endpoint]
    fn take_i64(i: u32) -> i64 {
        Storage::get_r_i64(i as usize)
    }

    #[endpoint]
    fn all_i64() -> [i64; 2] {
        [Storage::get_r_i64(0), Storage::get_r_i64(1)]
    }

    #[endpoint]
    fn echo_i64(x: i64) -> i64 {
        x
    }

    #[endpoint]
    fn swap_i64(i: u32, x: i64) -> (i64, i64) {
        let was = Storage::get_r_i64(i as usize);
        let other = Storage::get_v_i64();
        Storage::set_r_i64(i as usize, x);
        (other, was)
    }

    #[endpoint]
    fn set_u64(x: u64) {
        Storage::set_v_u64(x);
    }

    #[endpoint]
    fn get_u64() -> u64 {
        Storage::get_v_u64()
    }

    #[endpoint]
    fn put_u64(i: u32, x: u64) {
        Storage::set_r_u64(i as usize, x);
    }

    #[endpoint]
    fn take_u64(i: u32) -> u64 {
        Storage::get_r_u64(i as usize)
    }

    #[endpoint]
    fn all_u64() -> [u64; 4] {
        [Storage::get_r_u64(0), Storage::get_r_u64(1), Storage::get_r_u64(2), Storage::get_r_u64(3)]
    }

    #[endpoint]
    fn echo_u64(x: u64) -> u64 {
        x
    }

    #[endpoint]
    fn swap_u64(i: u32, x: u64) -> (u64, u64) {
        let was = Storage::get_r_u64(i as usize);
        let other = Storage::get_v_u64();
        Storage::set_r_u64(i as usize, x);
        (other, was)
    }

    #[endpoint]
    fn set_amount(x: Amount) {
        Storage::set_v_amount(x);
    }

    #[endpoint]
    fn get_amount() -> Amount {
        Storage::get_v_amount()
    }

    #[endpoint]
    fn put_amount(i: u32, x: Amount) {
        Storage::set_r_amount(i as usize, x);
    }

    #[endpoint]
    fn take_amount(i: u32) -> Amount {
        Storage::get_r_amount(i as usize)
    }

    #[endpoint]
    fn all_amount() -> [Amount; 6] {
        [Storage::get_r_amount(0), Storage::get_r_amount(1), Storage::get_r_amount(2), Storage::get_r_amount(3), Storage::get_r_amount(4), Storage::get_r_amount(5)]
    }

    #[endpoint]
    fn echo_amount(x: Amount) -> Amount {
        x
    }

    #[endpoint]
    fn swap_amount(i: u32, x: Amount) -> (Amount, Amount) {
        let was = Storage::get_r_amount(i as usize);
        let other = Storage::get_v_amount();
        Storage::set_r_amount(i as usize, x);
        (other, was)
    }

    #[endpoint]
    fn set_address(x: Address) {
        Storage::set_v_address(&x);
    }

    #[endpoint]
    fn get_address() -> Address {
        Storage::get_v_address()
    }

    #[endpoint]
    fn put_address(i: u32, x: Address) {
        Storage::set_r_address(i as usize, &x);
    }

    #[endpoint]
    fn take_address(i: u32) -> Address {
        Storage::get_r_address(i as usize)
    }

    #[endpoint]
    fn all_address() -> [Address; 3] {
        [Storage::get_r_address(0), Storage::get_r_address(1), Storage::get_r_address(2)]
    }

    #[endpoint]
    fn echo_address(x: Address) -> Address {
        x
    }

    #[endpoint]
    fn swap_address(i: u32, x: Address) -> (Address, Address) {
        let was = Storage::get_r_address(i as usize);
        let other = Storage::get_v_address();
        Storage::set_r_address(i as usize, &x);
        (other, was)
    }

    #[endpoint]
    fn arith(a: Amount, b: Amount, op: u8) -> Amount {
        if op == 0 { return a + b; }
        if op == 1 { return a - b; }
        if op == 2 { return a * b; }
        let mut c = a;
        if op == 3 { c += b; }
        if op == 4 { c -= b; }
        if op == 5 { c *= b; }
        if op == 6 { return a + b.0; }
        if op == 7 { return a - b.0; }
        if op == 8 { return a * b.0; }
        c
    }

    #[endpoint]
    fn plain(a: u8) {
        Node.log("a plain message", a);
        Storage::set_last(a as u16 + 1);
    }

    #[endpoint]
    fn bump() -> u16 {
        let x = Storage::get_last();
        Storage::set_last(x.wrapping_add(1));
        Storage::get_last()
    }

    #[endpoint]
    fn silent() {
    }
}
