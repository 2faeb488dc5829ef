//! Tables of grid dimensions. `dim_table!(list; f; extra types => fn type)` instantiates a generic
//! function for every (XMAX, YMAX) of a list and returns a static table of function pointers.

/// Every kind of extents, including the largest ones; nothing is stored per cell.
#[macro_export]
macro_rules! pos_dims {
    ($cb:ident; $($args:tt)*) => {
        $crate::$cb! { $($args)* ;
            (0, 0) (1, 0) (0, 1) (1, 1) (2, 2) (0, 6) (6, 0) (3, 1) (1, 3) (4, 2) (2, 4) (5, 6)
            (6, 5) (4, 4) (7, 3) (3, 7) (31, 0) (0, 31) (32, 1) (8, 8) (15, 15) (14, 29) (254, 1)
            (255, 0) (255, 1) (256, 1) (1, 254) (1, 255) (0, 256) (255, 255) (256, 256) (99, 100)
            (127, 128) (300, 7) (7, 300) (1023, 2) (32767, 1) (2, 32768) (65534, 0) (0, 65534)
            (65535, 0) (0, 65535) (65535, 65535) (65534, 65535) (65535, 65534) (65535, 1)
            (1, 65535) (32767, 32767) (999, 3000)
        }
    };
}

/// As `pos_dims`, where `Pos::WIDTH` and `Pos::HEIGHT` (u16) exist.
#[macro_export]
macro_rules! pos_dims_c {
    ($cb:ident; $($args:tt)*) => {
        $crate::$cb! { $($args)* ;
            (0, 0) (1, 0) (0, 1) (1, 1) (2, 2) (0, 6) (6, 0) (3, 1) (1, 3) (4, 2) (2, 4) (5, 6)
            (6, 5) (4, 4) (7, 3) (3, 7) (31, 0) (0, 31) (32, 1) (8, 8) (15, 15) (14, 29) (254, 1)
            (255, 0) (255, 1) (256, 1) (1, 254) (1, 255) (0, 256) (255, 255) (256, 256) (99, 100)
            (127, 128) (300, 7) (7, 300) (1023, 2) (32767, 1) (2, 32768) (65534, 0) (0, 65534)
            (65534, 65534) (65534, 65533) (32767, 32767) (999, 3000) (65534, 1) (1, 65534)
        }
    };
}

/// Extents whose cells are all visited or stored (up to 131072 cells).
#[macro_export]
macro_rules! grid_dims {
    ($cb:ident; $($args:tt)*) => {
        $crate::$cb! { $($args)* ;
            (0, 0) (1, 0) (0, 1) (1, 1) (2, 2) (0, 6) (6, 0) (3, 1) (1, 3) (4, 2) (2, 4) (3, 3)
            (5, 6) (6, 5) (4, 4) (7, 3) (3, 7) (5, 5) (30, 0) (31, 0) (32, 0) (0, 30) (0, 31)
            (0, 32) (7, 7) (6, 6) (8, 8) (9, 9) (15, 15) (14, 29) (29, 14) (31, 1) (1, 31) (16, 1)
            (20, 2) (32, 2) (2, 32) (254, 1) (255, 0) (255, 1) (256, 1) (1, 255) (1, 256)
            (9, 4) (4, 9) (10, 2) (2, 10) (12, 6) (6, 12) (17, 5) (5, 17)
        }
    };
}

/// Larger extents with stored cells.
#[macro_export]
macro_rules! grid_dims_big {
    ($cb:ident; $($args:tt)*) => {
        $crate::$cb! { $($args)* ;
            (255, 255) (256, 256) (99, 100) (300, 7) (7, 300) (1023, 2) (65535, 0) (0, 65535)
            (65535, 1) (1, 65534) (63, 63) (64, 64)
            (70, 65) (65, 70) (40, 33) (33, 40) (127, 63) (63, 128) (200, 129) (131, 257)
        }
    };
}

#[macro_export]
macro_rules! square_dims {
    ($cb:ident; $($args:tt)*) => {
        $crate::$cb! { $($args)* ;
            (0, 0) (1, 1) (2, 2) (3, 3) (4, 4) (5, 5) (6, 6) (7, 7) (8, 8) (9, 9) (10, 10) (11, 11)
            (15, 15) (16, 16) (30, 30) (31, 31) (32, 32) (33, 33) (63, 63) (64, 64)
        }
    };
}

#[macro_export]
macro_rules! square_dims_big {
    ($cb:ident; $($args:tt)*) => {
        $crate::$cb! { $($args)* ;
            (99, 99) (100, 100) (254, 254) (255, 255) (256, 256)
        }
    };
}

/// Extents for searches.
#[macro_export]
macro_rules! search_dims {
    ($cb:ident; $($args:tt)*) => {
        $crate::$cb! { $($args)* ;
            (0, 0) (1, 0) (0, 1) (1, 1) (2, 1) (1, 2) (2, 2) (0, 8) (8, 0) (3, 3) (4, 2) (2, 5) (4, 4)
            (5, 5) (7, 7) (3, 20) (20, 3) (1, 33) (33, 1) (12, 12) (2, 60)
        }
    };
}

#[macro_export]
macro_rules! search_dims_big {
    ($cb:ident; $($args:tt)*) => {
        $crate::$cb! { $($args)* ;
            (1, 3999) (3999, 1) (0, 5000) (5000, 0) (2, 1500) (63, 63) (99, 100) (15, 900) (900, 15)
            (255, 255) (300, 120) (120, 300) (1, 65534) (65534, 1) (65535, 0) (0, 65535)
        }
    };
}

/// Extents for races, whose cells may be stored.
#[macro_export]
macro_rules! race_dims {
    ($cb:ident; $($args:tt)*) => {
        $crate::$cb! { $($args)* ;
            (1999, 40) (40, 1999) (358, 360) (9000, 12) (12, 9000) (299, 300)
        }
    };
}

/// Extents for races, whose cells are too many to be stored.
#[macro_export]
macro_rules! race_dims_huge {
    ($cb:ident; $($args:tt)*) => {
        $crate::$cb! { $($args)* ;
            (65535, 65535) (65535, 299) (299, 65535) (2999, 3000) (65534, 65534) (32767, 40000)
        }
    };
}

/* callbacks *****************************************************************/

/// `fn f<const X: u16, const Y: u16>`
#[macro_export]
macro_rules! __tab_xy {
    ($f:ident, $fty:ty ; $(($x:literal, $y:literal))*) => {{
        const T: &[(u16, u16, $fty)] = &[$(($x, $y, $f::<$x, $y>)),*];
        T
    }};
}

/// `fn f<const X: u16, const Y: u16, const SIZE: usize>`
#[macro_export]
macro_rules! __tab_size {
    ($f:ident, $fty:ty ; $(($x:literal, $y:literal))*) => {{
        const T: &[(u16, u16, $fty)] =
            &[$(($x, $y, $f::<$x, $y, { ($x + 1) * ($y + 1) }>)),*];
        T
    }};
}

/// `fn f<const W: u16, const SIZE: usize>`, square
#[macro_export]
macro_rules! __tab_sq {
    ($f:ident, $fty:ty ; $(($x:literal, $y:literal))*) => {{
        const T: &[(u16, u16, $fty)] = &[$(($x, $y, $f::<$x, { ($x + 1) * ($x + 1) }>)),*];
        T
    }};
}

/// `fn f<const X: u16, const Y: u16, const WORDS: usize>`, least number of words
#[macro_export]
macro_rules! __tab_words {
    ($f:ident, $fty:ty ; $(($x:literal, $y:literal))*) => {{
        const T: &[(u16, u16, $fty)] =
            &[$(($x, $y, $f::<$x, $y, { (($x + 1) * ($y + 1) + 31) / 32 }>)),*];
        T
    }};
}

/// As `__tab_words`, with the number of words `sqrid_create!` uses
#[macro_export]
macro_rules! __tab_words1 {
    ($f:ident, $fty:ty ; $(($x:literal, $y:literal))*) => {{
        const T: &[(u16, u16, $fty)] =
            &[$(($x, $y, $f::<$x, $y, { (($x + 1) * ($y + 1)) / 32 + 1 }>)),*];
        T
    }};
}

/// `fn f<const W: u16, const WORDS: usize>`, square
#[macro_export]
macro_rules! __tab_sqwords {
    ($f:ident, $fty:ty ; $(($x:literal, $y:literal))*) => {{
        const T: &[(u16, u16, $fty)] =
            &[$(($x, $y, $f::<$x, { (($x + 1) * ($x + 1) + 31) / 32 }>)),*];
        T
    }};
}

#[macro_export]
macro_rules! __tab_sqwords1 {
    ($f:ident, $fty:ty ; $(($x:literal, $y:literal))*) => {{
        const T: &[(u16, u16, $fty)] =
            &[$(($x, $y, $f::<$x, { (($x + 1) * ($x + 1)) / 32 + 1 }>)),*];
        T
    }};
}

/// `fn f<const X: u16, const Y: u16, const WORDS: usize, const SIZE: usize>`
#[macro_export]
macro_rules! __tab_search {
    ($f:ident, $fty:ty ; $(($x:literal, $y:literal))*) => {{
        const T: &[(u16, u16, $fty)] = &[$((
            $x,
            $y,
            $f::<$x, $y, { (($x + 1) * ($y + 1)) / 32 + 1 }, { ($x + 1) * ($y + 1) }>,
        )),*];
        T
    }};
}
