// Seperate module for large regression test data, to keep the test code readable.
//

pub const ISSUE_52_INPUT: [u8; 16_052] = [
    80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48,
    48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 54, 56, 57, 10, 77, 82, 87, 86, 65, 16,
    77, 50, 48, 49, 57, 48, 49, 55, 0, 0, 0, 0, 2, 111, 18, 3, 59, 2, 111, 18, 3, 59, 2, 111, 18,
    131, 60, 2, 154, 153, 156, 67, 2, 154, 153, 156, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48,
    48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 54, 56, 57, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48,
    49, 57, 48, 50, 49, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 166, 155, 196, 59,
    2, 0, 128, 162, 67, 2, 0, 128, 162, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0,
    0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48,
    48, 48, 48, 48, 51, 57, 56, 56, 54, 56, 57, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 57, 48,
    50, 53, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 10, 215, 163, 59, 2, 61, 42,
    149, 67, 2, 61, 42, 149, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2,
    0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48,
    48, 51, 57, 56, 56, 54, 56, 57, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 57, 48, 51, 48, 0,
    0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 244, 253, 84, 60, 2, 10, 151, 161, 67, 2,
    10, 151, 161, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0,
    0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48,
    48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57,
    56, 56, 54, 56, 57, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 57, 48, 51, 52, 0, 0, 0, 0, 2,
    0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 111, 18, 131, 59, 2, 0, 128, 162, 67, 2, 0, 128, 162, 67, 0, 2,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49,
    53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 54, 56, 57, 10,
    77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 57, 48, 51, 56, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0,
    0, 2, 166, 155, 68, 59, 2, 0, 128, 142, 67, 2, 0, 128, 142, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48,
    48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 54, 56, 57, 10, 77, 82, 87, 86, 65, 16,
    77, 50, 48, 49, 57, 48, 52, 55, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 10,
    215, 35, 60, 2, 0, 128, 162, 67, 2, 0, 128, 162, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48,
    48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 54, 56, 57, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48,
    49, 57, 48, 53, 50, 0, 0, 0, 0, 2, 111, 18, 3, 59, 2, 111, 18, 3, 59, 2, 150, 67, 139, 60, 2,
    184, 30, 146, 67, 2, 184, 30, 146, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0,
    0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48,
    48, 48, 48, 51, 57, 56, 56, 54, 56, 57, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 50, 48, 48, 48,
    52, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 166, 155, 68, 59, 2, 0, 128, 142, 67, 2, 0,
    128, 142, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0,
    2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48,
    48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56,
    56, 54, 56, 57, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 50, 48, 48, 48, 56, 0, 0, 0, 0, 2, 111,
    18, 3, 59, 2, 111, 18, 3, 59, 2, 66, 96, 101, 60, 2, 61, 42, 158, 67, 2, 61, 42, 158, 67, 0, 2,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49,
    53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 54, 56, 57, 10,
    77, 82, 87, 86, 65, 16, 77, 50, 48, 50, 48, 48, 49, 51, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 0,
    0, 0, 0, 2, 10, 215, 163, 59, 2, 0, 128, 162, 67, 2, 0, 128, 162, 67, 0, 2, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48,
    48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 54, 56, 57, 10, 77, 82, 87, 86, 65,
    16, 77, 50, 48, 50, 48, 48, 49, 55, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2,
    10, 215, 163, 59, 2, 0, 128, 149, 67, 2, 0, 128, 149, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80,
    48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48,
    48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 55, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50,
    48, 49, 55, 48, 50, 49, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 188, 116, 19,
    60, 2, 0, 64, 151, 67, 2, 0, 64, 151, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0,
    0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48,
    48, 48, 48, 48, 51, 57, 56, 56, 55, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 55, 48,
    50, 53, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 66, 96, 229, 59, 2, 0, 128,
    142, 67, 2, 0, 128, 142, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2,
    0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48,
    48, 51, 57, 56, 56, 55, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 55, 48, 50, 57, 0,
    0, 0, 0, 2, 111, 18, 3, 59, 2, 111, 18, 131, 58, 2, 66, 96, 101, 60, 2, 61, 42, 149, 67, 2, 61,
    42, 149, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0,
    2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48,
    48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56,
    56, 55, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 55, 48, 51, 52, 0, 0, 0, 0, 2, 0,
    0, 0, 0, 2, 0, 0, 0, 0, 2, 111, 18, 3, 59, 2, 0, 128, 142, 67, 2, 0, 128, 142, 67, 0, 2, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56,
    48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 55, 54, 50, 10, 77, 82,
    87, 86, 65, 16, 77, 50, 48, 49, 55, 48, 51, 56, 0, 0, 0, 0, 2, 111, 18, 3, 59, 2, 111, 18, 3,
    59, 2, 150, 67, 139, 60, 2, 51, 211, 162, 67, 2, 51, 211, 162, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48,
    48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 55, 54, 50, 10, 77, 82, 87, 86, 65, 16,
    77, 50, 48, 49, 55, 48, 52, 51, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 166,
    155, 196, 59, 2, 0, 128, 162, 67, 2, 0, 128, 162, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48,
    48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 55, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48,
    49, 55, 48, 52, 55, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 10, 215, 163, 59,
    2, 0, 128, 162, 67, 2, 0, 128, 162, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0,
    0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48,
    48, 48, 48, 48, 51, 57, 56, 56, 55, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 56, 48,
    48, 52, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 88, 57, 52, 60, 2, 174, 199,
    160, 67, 2, 174, 199, 160, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0,
    2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48,
    48, 51, 57, 56, 56, 55, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 56, 48, 48, 56, 0,
    0, 0, 0, 2, 111, 18, 3, 59, 2, 111, 18, 3, 59, 2, 49, 8, 172, 60, 2, 195, 149, 152, 67, 2, 195,
    149, 152, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0,
    2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48,
    48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56,
    56, 55, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 56, 48, 49, 50, 0, 0, 0, 0, 2, 10,
    215, 163, 59, 2, 10, 215, 163, 59, 2, 49, 8, 44, 61, 2, 143, 2, 148, 67, 2, 143, 2, 148, 67, 0,
    2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49,
    53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 55, 54, 50, 10,
    77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 56, 48, 49, 54, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2,
    111, 18, 131, 58, 2, 166, 155, 68, 60, 2, 72, 1, 149, 67, 2, 72, 1, 149, 67, 0, 2, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48,
    48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 55, 54, 50, 10, 77, 82, 87,
    86, 65, 16, 77, 50, 48, 49, 56, 48, 51, 52, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131,
    58, 2, 10, 215, 163, 59, 2, 0, 128, 152, 67, 2, 0, 128, 152, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48,
    48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 55, 54, 50, 10, 77, 82, 87, 86, 65, 16,
    77, 50, 48, 49, 56, 48, 51, 56, 0, 0, 0, 0, 2, 166, 155, 68, 59, 2, 111, 18, 3, 59, 2, 166,
    155, 196, 60, 2, 154, 121, 159, 67, 2, 154, 121, 159, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80,
    48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48,
    48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 55, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50,
    48, 49, 56, 48, 52, 51, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 66, 96, 101,
    60, 2, 72, 225, 159, 67, 2, 72, 225, 159, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50,
    48, 48, 48, 48, 48, 51, 57, 56, 56, 55, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 56,
    48, 52, 55, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 166, 155, 68, 60, 2, 215,
    195, 161, 67, 2, 215, 195, 161, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0,
    0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48,
    48, 48, 51, 57, 56, 56, 55, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 56, 48, 53, 49,
    0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 66, 96, 101, 60, 2, 0, 0, 160, 67, 2,
    0, 0, 160, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0,
    2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48,
    48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56,
    56, 55, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 57, 48, 48, 52, 0, 0, 0, 0, 2, 111,
    18, 3, 59, 2, 111, 18, 3, 59, 2, 150, 67, 139, 60, 2, 0, 160, 160, 67, 2, 0, 160, 160, 67, 0,
    2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49,
    53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 55, 54, 50, 10,
    77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 57, 48, 48, 56, 0, 0, 0, 0, 2, 111, 18, 3, 59, 2, 111,
    18, 3, 59, 2, 143, 194, 117, 60, 2, 61, 42, 154, 67, 2, 61, 42, 154, 67, 0, 2, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48,
    48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 55, 54, 50, 10, 77, 82, 87, 86,
    65, 16, 77, 50, 48, 49, 57, 48, 49, 50, 0, 0, 0, 0, 2, 166, 155, 68, 59, 2, 166, 155, 68, 59,
    2, 143, 194, 245, 60, 2, 184, 158, 148, 67, 2, 184, 158, 148, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48,
    48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 55, 54, 50, 10, 77, 82, 87, 86, 65, 16,
    77, 50, 48, 49, 57, 48, 49, 55, 0, 0, 0, 0, 2, 111, 18, 3, 59, 2, 111, 18, 3, 59, 2, 111, 18,
    131, 60, 2, 154, 153, 156, 67, 2, 154, 153, 156, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48,
    48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 55, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48,
    49, 57, 48, 50, 49, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 166, 155, 196, 59,
    2, 0, 128, 162, 67, 2, 0, 128, 162, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0,
    0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48,
    48, 48, 48, 48, 51, 57, 56, 56, 55, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 57, 48,
    50, 53, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 10, 215, 163, 59, 2, 61, 42,
    149, 67, 2, 61, 42, 149, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2,
    0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48,
    48, 51, 57, 56, 56, 55, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 57, 48, 51, 48, 0,
    0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 244, 253, 84, 60, 2, 10, 151, 161, 67, 2,
    10, 151, 161, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0,
    0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48,
    48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57,
    56, 56, 55, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 57, 48, 51, 52, 0, 0, 0, 0, 2,
    0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 111, 18, 131, 59, 2, 0, 128, 162, 67, 2, 0, 128, 162, 67, 0, 2,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49,
    53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 55, 54, 50, 10,
    77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 57, 48, 51, 56, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0,
    0, 2, 166, 155, 68, 59, 2, 0, 128, 142, 67, 2, 0, 128, 142, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48,
    48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 55, 54, 50, 10, 77, 82, 87, 86, 65, 16,
    77, 50, 48, 49, 57, 48, 52, 55, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 10,
    215, 35, 60, 2, 0, 128, 162, 67, 2, 0, 128, 162, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48,
    48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 55, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48,
    49, 57, 48, 53, 50, 0, 0, 0, 0, 2, 111, 18, 3, 59, 2, 111, 18, 3, 59, 2, 150, 67, 139, 60, 2,
    184, 30, 146, 67, 2, 184, 30, 146, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0,
    0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48,
    48, 48, 48, 51, 57, 56, 56, 55, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 50, 48, 48, 48,
    52, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 166, 155, 68, 59, 2, 0, 128, 142, 67, 2, 0,
    128, 142, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0,
    2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48,
    48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56,
    56, 55, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 50, 48, 48, 48, 56, 0, 0, 0, 0, 2, 111,
    18, 3, 59, 2, 111, 18, 3, 59, 2, 66, 96, 101, 60, 2, 61, 42, 158, 67, 2, 61, 42, 158, 67, 0, 2,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49,
    53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 55, 54, 50, 10,
    77, 82, 87, 86, 65, 16, 77, 50, 48, 50, 48, 48, 49, 51, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 0,
    0, 0, 0, 2, 10, 215, 163, 59, 2, 0, 128, 162, 67, 2, 0, 128, 162, 67, 0, 2, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48,
    48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 55, 54, 50, 10, 77, 82, 87, 86, 65,
    16, 77, 50, 48, 50, 48, 48, 49, 55, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2,
    10, 215, 163, 59, 2, 0, 128, 149, 67, 2, 0, 128, 149, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80,
    48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48,
    48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 56, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50,
    48, 49, 55, 48, 50, 49, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 188, 116, 19,
    60, 2, 0, 64, 151, 67, 2, 0, 64, 151, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0,
    0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48,
    48, 48, 48, 48, 51, 57, 56, 56, 56, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 55, 48,
    50, 53, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 66, 96, 229, 59, 2, 0, 128,
    142, 67, 2, 0, 128, 142, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2,
    0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48,
    48, 51, 57, 56, 56, 56, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 55, 48, 50, 57, 0,
    0, 0, 0, 2, 111, 18, 3, 59, 2, 111, 18, 131, 58, 2, 66, 96, 101, 60, 2, 61, 42, 149, 67, 2, 61,
    42, 149, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0,
    2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48,
    48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56,
    56, 56, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 55, 48, 51, 52, 0, 0, 0, 0, 2, 0,
    0, 0, 0, 2, 0, 0, 0, 0, 2, 111, 18, 3, 59, 2, 0, 128, 142, 67, 2, 0, 128, 142, 67, 0, 2, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56,
    48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 56, 54, 50, 10, 77, 82,
    87, 86, 65, 16, 77, 50, 48, 49, 55, 48, 51, 56, 0, 0, 0, 0, 2, 111, 18, 3, 59, 2, 111, 18, 3,
    59, 2, 150, 67, 139, 60, 2, 51, 211, 162, 67, 2, 51, 211, 162, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48,
    48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 56, 54, 50, 10, 77, 82, 87, 86, 65, 16,
    77, 50, 48, 49, 55, 48, 52, 51, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 166,
    155, 196, 59, 2, 0, 128, 162, 67, 2, 0, 128, 162, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48,
    48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 56, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48,
    49, 55, 48, 52, 55, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 10, 215, 163, 59,
    2, 0, 128, 162, 67, 2, 0, 128, 162, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0,
    0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48,
    48, 48, 48, 48, 51, 57, 56, 56, 56, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 56, 48,
    48, 52, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 88, 57, 52, 60, 2, 174, 199,
    160, 67, 2, 174, 199, 160, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0,
    2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48,
    48, 51, 57, 56, 56, 56, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 56, 48, 48, 56, 0,
    0, 0, 0, 2, 111, 18, 3, 59, 2, 111, 18, 3, 59, 2, 49, 8, 172, 60, 2, 195, 149, 152, 67, 2, 195,
    149, 152, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0,
    2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48,
    48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56,
    56, 56, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 56, 48, 49, 50, 0, 0, 0, 0, 2, 10,
    215, 163, 59, 2, 10, 215, 163, 59, 2, 49, 8, 44, 61, 2, 143, 2, 148, 67, 2, 143, 2, 148, 67, 0,
    2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49,
    53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 56, 54, 50, 10,
    77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 56, 48, 49, 54, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2,
    111, 18, 131, 58, 2, 166, 155, 68, 60, 2, 72, 1, 149, 67, 2, 72, 1, 149, 67, 0, 2, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48,
    48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 56, 54, 50, 10, 77, 82, 87,
    86, 65, 16, 77, 50, 48, 49, 56, 48, 51, 52, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131,
    58, 2, 10, 215, 163, 59, 2, 0, 128, 152, 67, 2, 0, 128, 152, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48,
    48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 56, 54, 50, 10, 77, 82, 87, 86, 65, 16,
    77, 50, 48, 49, 56, 48, 51, 56, 0, 0, 0, 0, 2, 166, 155, 68, 59, 2, 111, 18, 3, 59, 2, 166,
    155, 196, 60, 2, 154, 121, 159, 67, 2, 154, 121, 159, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80,
    48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48,
    48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 56, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50,
    48, 49, 56, 48, 52, 51, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 66, 96, 101,
    60, 2, 72, 225, 159, 67, 2, 72, 225, 159, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50,
    48, 48, 48, 48, 48, 51, 57, 56, 56, 56, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 56,
    48, 52, 55, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 166, 155, 68, 60, 2, 215,
    195, 161, 67, 2, 215, 195, 161, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0,
    0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48,
    48, 48, 51, 57, 56, 56, 56, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 56, 48, 53, 49,
    0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 66, 96, 101, 60, 2, 0, 0, 160, 67, 2,
    0, 0, 160, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0,
    2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48,
    48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56,
    56, 56, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 57, 48, 48, 52, 0, 0, 0, 0, 2, 111,
    18, 3, 59, 2, 111, 18, 3, 59, 2, 150, 67, 139, 60, 2, 0, 160, 160, 67, 2, 0, 160, 160, 67, 0,
    2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49,
    53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 56, 54, 50, 10,
    77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 57, 48, 48, 56, 0, 0, 0, 0, 2, 111, 18, 3, 59, 2, 111,
    18, 3, 59, 2, 143, 194, 117, 60, 2, 61, 42, 154, 67, 2, 61, 42, 154, 67, 0, 2, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48,
    48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 56, 54, 50, 10, 77, 82, 87, 86,
    65, 16, 77, 50, 48, 49, 57, 48, 49, 50, 0, 0, 0, 0, 2, 166, 155, 68, 59, 2, 166, 155, 68, 59,
    2, 143, 194, 245, 60, 2, 184, 158, 148, 67, 2, 184, 158, 148, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48,
    48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 56, 54, 50, 10, 77, 82, 87, 86, 65, 16,
    77, 50, 48, 49, 57, 48, 49, 55, 0, 0, 0, 0, 2, 111, 18, 3, 59, 2, 111, 18, 3, 59, 2, 111, 18,
    131, 60, 2, 154, 153, 156, 67, 2, 154, 153, 156, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48,
    48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 56, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48,
    49, 57, 48, 50, 49, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 166, 155, 196, 59,
    2, 0, 128, 162, 67, 2, 0, 128, 162, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0,
    0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48,
    48, 48, 48, 48, 51, 57, 56, 56, 56, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 57, 48,
    50, 53, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 10, 215, 163, 59, 2, 61, 42,
    149, 67, 2, 61, 42, 149, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2,
    0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48,
    48, 51, 57, 56, 56, 56, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 57, 48, 51, 48, 0,
    0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 244, 253, 84, 60, 2, 10, 151, 161, 67, 2,
    10, 151, 161, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0,
    0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48,
    48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57,
    56, 56, 56, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 57, 48, 51, 52, 0, 0, 0, 0, 2,
    0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 111, 18, 131, 59, 2, 0, 128, 162, 67, 2, 0, 128, 162, 67, 0, 2,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49,
    53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 56, 54, 50, 10,
    77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 57, 48, 51, 56, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0,
    0, 2, 166, 155, 68, 59, 2, 0, 128, 142, 67, 2, 0, 128, 142, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48,
    48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 56, 54, 50, 10, 77, 82, 87, 86, 65, 16,
    77, 50, 48, 49, 57, 48, 52, 55, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 10,
    215, 35, 60, 2, 0, 128, 162, 67, 2, 0, 128, 162, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48,
    48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 56, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48,
    49, 57, 48, 53, 50, 0, 0, 0, 0, 2, 111, 18, 3, 59, 2, 111, 18, 3, 59, 2, 150, 67, 139, 60, 2,
    184, 30, 146, 67, 2, 184, 30, 146, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0,
    0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48,
    48, 48, 48, 51, 57, 56, 56, 56, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 50, 48, 48, 48,
    52, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 166, 155, 68, 59, 2, 0, 128, 142, 67, 2, 0,
    128, 142, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0,
    2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48,
    48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56,
    56, 56, 54, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 50, 48, 48, 48, 56, 0, 0, 0, 0, 2, 111,
    18, 3, 59, 2, 111, 18, 3, 59, 2, 66, 96, 101, 60, 2, 61, 42, 158, 67, 2, 61, 42, 158, 67, 0, 2,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49,
    53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 56, 54, 50, 10,
    77, 82, 87, 86, 65, 16, 77, 50, 48, 50, 48, 48, 49, 51, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 0,
    0, 0, 0, 2, 10, 215, 163, 59, 2, 0, 128, 162, 67, 2, 0, 128, 162, 67, 0, 2, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48,
    48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 56, 56, 54, 50, 10, 77, 82, 87, 86, 65,
    16, 77, 50, 48, 50, 48, 48, 49, 55, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2,
    10, 215, 163, 59, 2, 0, 128, 149, 67, 2, 0, 128, 149, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80,
    48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48,
    48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 57, 48, 49, 54, 10, 77, 82, 87, 86, 65, 16, 77, 50,
    48, 49, 55, 48, 50, 49, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 188, 116, 19,
    60, 2, 0, 64, 151, 67, 2, 0, 64, 151, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0,
    0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48,
    48, 48, 48, 48, 51, 57, 56, 57, 48, 49, 54, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 55, 48,
    50, 53, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 66, 96, 229, 59, 2, 0, 128,
    142, 67, 2, 0, 128, 142, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2,
    0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48,
    48, 51, 57, 56, 57, 48, 49, 54, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 55, 48, 50, 57, 0,
    0, 0, 0, 2, 111, 18, 3, 59, 2, 111, 18, 131, 58, 2, 66, 96, 101, 60, 2, 61, 42, 149, 67, 2, 61,
    42, 149, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0,
    2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48,
    48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56,
    57, 48, 49, 54, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 55, 48, 51, 52, 0, 0, 0, 0, 2, 0,
    0, 0, 0, 2, 0, 0, 0, 0, 2, 111, 18, 3, 59, 2, 0, 128, 142, 67, 2, 0, 128, 142, 67, 0, 2, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56,
    48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 57, 48, 49, 54, 10, 77, 82,
    87, 86, 65, 16, 77, 50, 48, 49, 55, 48, 51, 56, 0, 0, 0, 0, 2, 111, 18, 3, 59, 2, 111, 18, 3,
    59, 2, 150, 67, 139, 60, 2, 51, 211, 162, 67, 2, 51, 211, 162, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48,
    48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 57, 48, 49, 54, 10, 77, 82, 87, 86, 65, 16,
    77, 50, 48, 49, 55, 48, 52, 51, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 166,
    155, 196, 59, 2, 0, 128, 162, 67, 2, 0, 128, 162, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48,
    48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 57, 48, 49, 54, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48,
    49, 55, 48, 52, 55, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 10, 215, 163, 59,
    2, 0, 128, 162, 67, 2, 0, 128, 162, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0,
    0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48,
    48, 48, 48, 48, 51, 57, 56, 57, 48, 49, 54, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 56, 48,
    48, 52, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 88, 57, 52, 60, 2, 174, 199,
    160, 67, 2, 174, 199, 160, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0,
    2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48,
    48, 51, 57, 56, 57, 48, 49, 54, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 56, 48, 48, 56, 0,
    0, 0, 0, 2, 111, 18, 3, 59, 2, 111, 18, 3, 59, 2, 49, 8, 172, 60, 2, 195, 149, 152, 67, 2, 195,
    149, 152, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0,
    2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48,
    48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56,
    57, 48, 49, 54, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 56, 48, 49, 50, 0, 0, 0, 0, 2, 10,
    215, 163, 59, 2, 10, 215, 163, 59, 2, 49, 8, 44, 61, 2, 143, 2, 148, 67, 2, 143, 2, 148, 67, 0,
    2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49,
    53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 57, 48, 49, 54, 10,
    77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 56, 48, 49, 54, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2,
    111, 18, 131, 58, 2, 166, 155, 68, 60, 2, 72, 1, 149, 67, 2, 72, 1, 149, 67, 0, 2, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48,
    48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 57, 48, 49, 54, 10, 77, 82, 87,
    86, 65, 16, 77, 50, 48, 49, 56, 48, 51, 52, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131,
    58, 2, 10, 215, 163, 59, 2, 0, 128, 152, 67, 2, 0, 128, 152, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48,
    48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 57, 48, 49, 54, 10, 77, 82, 87, 86, 65, 16,
    77, 50, 48, 49, 56, 48, 51, 56, 0, 0, 0, 0, 2, 166, 155, 68, 59, 2, 111, 18, 3, 59, 2, 166,
    155, 196, 60, 2, 154, 121, 159, 67, 2, 154, 121, 159, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80,
    48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48,
    48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 57, 48, 49, 54, 10, 77, 82, 87, 86, 65, 16, 77, 50,
    48, 49, 56, 48, 52, 51, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 66, 96, 101,
    60, 2, 72, 225, 159, 67, 2, 72, 225, 159, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50,
    48, 48, 48, 48, 48, 51, 57, 56, 57, 48, 49, 54, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 56,
    48, 52, 55, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 166, 155, 68, 60, 2, 215,
    195, 161, 67, 2, 215, 195, 161, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0,
    0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48,
    48, 48, 51, 57, 56, 57, 48, 49, 54, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 56, 48, 53, 49,
    0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 66, 96, 101, 60, 2, 0, 0, 160, 67, 2,
    0, 0, 160, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0,
    2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48,
    48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56,
    57, 48, 49, 54, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 57, 48, 48, 52, 0, 0, 0, 0, 2, 111,
    18, 3, 59, 2, 111, 18, 3, 59, 2, 150, 67, 139, 60, 2, 0, 160, 160, 67, 2, 0, 160, 160, 67, 0,
    2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49,
    53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 57, 48, 49, 54, 10,
    77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 57, 48, 48, 56, 0, 0, 0, 0, 2, 111, 18, 3, 59, 2, 111,
    18, 3, 59, 2, 143, 194, 117, 60, 2, 61, 42, 154, 67, 2, 61, 42, 154, 67, 0, 2, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48,
    48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 57, 48, 49, 54, 10, 77, 82, 87, 86,
    65, 16, 77, 50, 48, 49, 57, 48, 49, 50, 0, 0, 0, 0, 2, 166, 155, 68, 59, 2, 166, 155, 68, 59,
    2, 143, 194, 245, 60, 2, 184, 158, 148, 67, 2, 184, 158, 148, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48,
    48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 57, 48, 49, 54, 10, 77, 82, 87, 86, 65, 16,
    77, 50, 48, 49, 57, 48, 49, 55, 0, 0, 0, 0, 2, 111, 18, 3, 59, 2, 111, 18, 3, 59, 2, 111, 18,
    131, 60, 2, 154, 153, 156, 67, 2, 154, 153, 156, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48,
    48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 57, 48, 49, 54, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48,
    49, 57, 48, 50, 49, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 166, 155, 196, 59,
    2, 0, 128, 162, 67, 2, 0, 128, 162, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0,
    0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48,
    48, 48, 48, 48, 51, 57, 56, 57, 48, 49, 54, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 57, 48,
    50, 53, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 10, 215, 163, 59, 2, 61, 42,
    149, 67, 2, 61, 42, 149, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2,
    0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48,
    48, 51, 57, 56, 57, 48, 49, 54, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 57, 48, 51, 48, 0,
    0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 244, 253, 84, 60, 2, 10, 151, 161, 67, 2,
    10, 151, 161, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0,
    0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48,
    48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57,
    56, 57, 48, 49, 54, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 57, 48, 51, 52, 0, 0, 0, 0, 2,
    0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 111, 18, 131, 59, 2, 0, 128, 162, 67, 2, 0, 128, 162, 67, 0, 2,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49,
    53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 57, 48, 49, 54, 10,
    77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 57, 48, 51, 56, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0,
    0, 2, 166, 155, 68, 59, 2, 0, 128, 142, 67, 2, 0, 128, 142, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48,
    48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 57, 48, 49, 54, 10, 77, 82, 87, 86, 65, 16,
    77, 50, 48, 49, 57, 48, 52, 55, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2, 10,
    215, 35, 60, 2, 0, 128, 162, 67, 2, 0, 128, 162, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48,
    48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 57, 48, 49, 54, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48,
    49, 57, 48, 53, 50, 0, 0, 0, 0, 2, 111, 18, 3, 59, 2, 111, 18, 3, 59, 2, 150, 67, 139, 60, 2,
    184, 30, 146, 67, 2, 184, 30, 146, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0,
    0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48,
    48, 48, 48, 51, 57, 56, 57, 48, 49, 54, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 50, 48, 48, 48,
    52, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 166, 155, 68, 59, 2, 0, 128, 142, 67, 2, 0,
    128, 142, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0,
    2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48,
    48, 54, 56, 50, 49, 53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56,
    57, 48, 49, 54, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 50, 48, 48, 48, 56, 0, 0, 0, 0, 2, 111,
    18, 3, 59, 2, 111, 18, 3, 59, 2, 66, 96, 101, 60, 2, 61, 42, 158, 67, 2, 61, 42, 158, 67, 0, 2,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49,
    53, 56, 48, 48, 48, 48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 57, 48, 49, 54, 10,
    77, 82, 87, 86, 65, 16, 77, 50, 48, 50, 48, 48, 49, 51, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 0,
    0, 0, 0, 2, 10, 215, 163, 59, 2, 0, 128, 162, 67, 2, 0, 128, 162, 67, 0, 2, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 48, 48, 48,
    48, 48, 48, 48, 48, 50, 48, 48, 48, 48, 48, 51, 57, 56, 57, 48, 49, 54, 10, 77, 82, 87, 86, 65,
    16, 77, 50, 48, 50, 48, 48, 49, 55, 0, 0, 0, 0, 2, 111, 18, 131, 58, 2, 111, 18, 131, 58, 2,
    10, 215, 163, 59, 2, 0, 128, 149, 67, 2, 0, 128, 149, 67, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 80, 80,
    48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 50, 48, 48, 48, 48, 48,
    48, 48, 48, 48, 49, 51, 48, 52, 51, 52, 54, 52, 48, 50, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50,
    48, 49, 55, 48, 49, 54, 0, 0, 0, 0, 2, 49, 8, 144, 64, 2, 96, 229, 144, 64, 2, 172, 28, 230,
    64, 2, 113, 61, 46, 66, 2, 92, 143, 52, 66, 0, 2, 0, 0, 192, 65, 0, 0, 0, 2, 47, 221, 12, 65,
    2, 219, 249, 20, 65, 2, 8, 172, 14, 65, 2, 8, 172, 22, 65, 2, 0, 0, 128, 65, 2, 0, 0, 128, 63,
    2, 8, 172, 14, 65, 2, 0, 0, 144, 65, 2, 0, 0, 112, 65, 2, 0, 0, 0, 64, 2, 0, 0, 48, 65, 2, 0,
    0, 224, 64, 0, 0, 0, 0, 2, 47, 221, 12, 65, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48,
    48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 50, 48, 48, 48, 48, 48, 48, 48, 48, 48, 49, 51, 48, 52,
    51, 52, 54, 52, 48, 50, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 55, 48, 50, 49, 0, 0,
    0, 0, 2, 160, 26, 155, 64, 2, 233, 38, 157, 64, 2, 156, 196, 232, 64, 2, 72, 225, 70, 66, 2,
    205, 204, 82, 66, 0, 2, 0, 0, 168, 65, 0, 0, 0, 2, 33, 176, 150, 64, 2, 27, 47, 205, 63, 2, 10,
    215, 163, 64, 2, 12, 2, 3, 64, 2, 0, 0, 48, 65, 2, 0, 0, 128, 63, 2, 248, 83, 167, 64, 2, 0, 0,
    144, 65, 2, 0, 0, 80, 65, 2, 0, 0, 128, 63, 2, 0, 0, 32, 65, 2, 0, 0, 64, 64, 0, 0, 0, 0, 2,
    33, 176, 150, 64, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50,
    49, 53, 56, 50, 48, 48, 48, 48, 48, 48, 48, 48, 48, 49, 51, 48, 52, 51, 52, 54, 52, 48, 50, 50,
    10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 55, 48, 50, 53, 0, 0, 0, 0, 2, 125, 63, 153, 64, 2,
    72, 225, 158, 64, 2, 209, 34, 243, 64, 2, 61, 10, 63, 66, 2, 61, 10, 76, 66, 0, 2, 0, 0, 168,
    65, 0, 0, 0, 2, 96, 229, 168, 64, 2, 68, 139, 200, 64, 2, 201, 118, 182, 64, 2, 164, 112, 209,
    64, 2, 0, 0, 64, 65, 2, 0, 0, 64, 64, 2, 61, 10, 167, 64, 2, 0, 0, 160, 65, 2, 0, 0, 96, 65, 2,
    0, 0, 0, 0, 2, 0, 0, 64, 65, 2, 0, 0, 192, 64, 0, 0, 0, 0, 2, 96, 229, 168, 64, 0, 0, 0, 80,
    80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 50, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 49, 51, 48, 52, 51, 52, 54, 52, 48, 50, 50, 10, 77, 82, 87, 86, 65, 16, 77,
    50, 48, 49, 55, 48, 50, 57, 0, 0, 0, 0, 2, 84, 227, 169, 64, 2, 180, 200, 174, 64, 2, 98, 16,
    248, 64, 2, 236, 81, 50, 66, 2, 51, 51, 59, 66, 0, 2, 0, 0, 144, 65, 0, 0, 0, 2, 111, 18, 227,
    64, 2, 80, 141, 223, 64, 2, 184, 30, 237, 64, 2, 106, 188, 224, 64, 2, 0, 0, 64, 65, 2, 0, 0,
    64, 64, 2, 174, 71, 1, 65, 2, 0, 0, 128, 65, 2, 0, 0, 112, 65, 2, 0, 0, 0, 64, 2, 0, 0, 64, 65,
    2, 0, 0, 48, 65, 0, 0, 0, 0, 2, 111, 18, 227, 64, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 50, 48, 48, 48, 48, 48, 48, 48, 48, 48, 49, 51, 48,
    52, 51, 52, 54, 52, 48, 50, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 55, 48, 51, 52, 0,
    0, 0, 0, 2, 217, 206, 163, 64, 2, 109, 231, 171, 64, 2, 135, 22, 3, 65, 2, 61, 10, 71, 66, 2,
    51, 51, 86, 66, 0, 2, 0, 0, 168, 65, 0, 0, 0, 2, 156, 196, 10, 65, 2, 10, 215, 203, 64, 2, 170,
    241, 18, 65, 2, 88, 57, 220, 64, 2, 0, 0, 96, 65, 2, 0, 0, 0, 64, 2, 27, 47, 19, 65, 2, 0, 0,
    136, 65, 2, 0, 0, 128, 65, 2, 0, 0, 0, 0, 2, 0, 0, 16, 65, 2, 0, 0, 192, 64, 0, 0, 0, 0, 2,
    156, 196, 10, 65, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50,
    49, 53, 56, 50, 48, 48, 48, 48, 48, 48, 48, 48, 48, 49, 51, 48, 52, 51, 52, 54, 52, 48, 50, 50,
    10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 55, 48, 51, 56, 0, 0, 0, 0, 2, 23, 217, 166, 64, 2,
    23, 217, 178, 64, 2, 152, 110, 4, 65, 2, 72, 225, 65, 66, 2, 236, 81, 84, 66, 0, 2, 0, 0, 200,
    65, 0, 0, 0, 2, 178, 157, 243, 64, 2, 80, 141, 131, 64, 2, 219, 249, 254, 64, 2, 215, 163, 136,
    64, 2, 0, 0, 160, 65, 2, 0, 0, 128, 63, 2, 184, 30, 1, 65, 2, 0, 0, 176, 65, 2, 0, 0, 152, 65,
    2, 0, 0, 0, 0, 2, 0, 0, 48, 65, 2, 0, 0, 32, 65, 0, 0, 0, 0, 2, 178, 157, 243, 64, 0, 0, 0, 80,
    80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 50, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 49, 51, 48, 52, 51, 52, 54, 52, 48, 50, 50, 10, 77, 82, 87, 86, 65, 16, 77,
    50, 48, 49, 55, 48, 52, 51, 0, 0, 0, 0, 2, 113, 61, 138, 64, 2, 86, 14, 149, 64, 2, 178, 157,
    227, 64, 2, 82, 184, 70, 66, 2, 61, 10, 90, 66, 0, 2, 0, 0, 192, 65, 0, 0, 0, 2, 162, 69, 28,
    65, 2, 45, 178, 241, 64, 2, 6, 129, 33, 65, 2, 213, 120, 249, 64, 2, 0, 0, 112, 65, 2, 0, 0,
    128, 64, 2, 39, 49, 36, 65, 2, 0, 0, 168, 65, 2, 0, 0, 152, 65, 2, 0, 0, 64, 64, 2, 0, 0, 96,
    65, 2, 0, 0, 0, 65, 0, 0, 0, 0, 2, 162, 69, 28, 65, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48,
    48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 50, 48, 48, 48, 48, 48, 48, 48, 48, 48, 49, 51,
    48, 52, 51, 52, 54, 52, 48, 50, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 55, 48, 52, 55,
    0, 0, 0, 0, 2, 147, 24, 140, 64, 2, 78, 98, 148, 64, 2, 121, 233, 218, 64, 2, 154, 153, 65, 66,
    2, 92, 143, 80, 66, 0, 2, 0, 0, 216, 65, 0, 0, 0, 2, 123, 20, 58, 65, 2, 78, 98, 240, 64, 2,
    27, 47, 63, 65, 2, 199, 75, 247, 64, 2, 0, 0, 152, 65, 2, 0, 0, 128, 63, 2, 6, 129, 67, 65, 2,
    0, 0, 168, 65, 2, 0, 0, 168, 65, 2, 0, 0, 0, 0, 2, 0, 0, 96, 65, 2, 0, 0, 16, 65, 0, 0, 0, 0,
    2, 123, 20, 58, 65, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56,
    50, 49, 53, 56, 50, 48, 48, 48, 48, 48, 48, 48, 48, 48, 49, 51, 48, 52, 51, 52, 54, 52, 48, 50,
    50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 55, 48, 53, 49, 0, 0, 0, 0, 2, 211, 77, 150,
    64, 2, 109, 231, 159, 64, 2, 129, 149, 227, 64, 2, 164, 112, 59, 66, 2, 123, 20, 75, 66, 0, 2,
    0, 0, 216, 65, 0, 0, 0, 2, 92, 143, 92, 65, 2, 51, 51, 235, 64, 2, 121, 233, 94, 65, 2, 16, 88,
    237, 64, 2, 0, 0, 136, 65, 2, 0, 0, 0, 64, 2, 113, 61, 100, 65, 2, 0, 0, 168, 65, 2, 0, 0, 168,
    65, 2, 0, 0, 0, 64, 2, 0, 0, 128, 65, 2, 0, 0, 224, 64, 0, 0, 0, 0, 2, 92, 143, 92, 65, 0, 0,
    0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 50, 48, 48,
    48, 48, 48, 48, 48, 48, 48, 49, 51, 48, 52, 51, 52, 54, 52, 48, 50, 50, 10, 77, 82, 87, 86, 65,
    16, 77, 50, 48, 49, 56, 48, 48, 52, 0, 0, 0, 0, 2, 109, 231, 163, 64, 2, 133, 235, 173, 64, 2,
    168, 198, 243, 64, 2, 72, 225, 54, 66, 2, 246, 40, 69, 66, 0, 2, 0, 0, 224, 65, 0, 0, 0, 2,
    154, 153, 89, 65, 2, 4, 86, 178, 64, 2, 211, 77, 90, 65, 2, 170, 241, 182, 64, 2, 0, 0, 112,
    65, 2, 0, 0, 0, 64, 2, 43, 135, 90, 65, 2, 0, 0, 216, 65, 2, 0, 0, 184, 65, 2, 0, 0, 128, 63,
    2, 0, 0, 168, 65, 2, 0, 0, 32, 65, 0, 0, 0, 0, 2, 154, 153, 89, 65, 0, 0, 0, 80, 80, 48, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 50, 48, 48, 48, 48, 48, 48, 48,
    48, 48, 49, 51, 48, 52, 51, 52, 54, 52, 48, 50, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49,
    56, 48, 48, 56, 0, 0, 0, 0, 2, 195, 245, 160, 64, 2, 117, 147, 172, 64, 2, 55, 137, 1, 65, 2,
    51, 51, 68, 66, 2, 82, 184, 85, 66, 0, 2, 0, 0, 240, 65, 0, 0, 0, 2, 49, 8, 42, 65, 2, 88, 57,
    4, 64, 2, 180, 200, 42, 65, 2, 61, 10, 23, 64, 2, 0, 0, 160, 65, 2, 0, 0, 160, 64, 2, 47, 221,
    42, 65, 2, 0, 0, 232, 65, 2, 0, 0, 192, 65, 2, 0, 0, 64, 64, 2, 0, 0, 160, 65, 2, 0, 0, 48, 65,
    0, 0, 0, 0, 2, 49, 8, 42, 65, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48,
    54, 56, 50, 49, 53, 56, 50, 48, 48, 48, 48, 48, 48, 48, 48, 48, 49, 51, 48, 52, 51, 52, 54, 52,
    48, 50, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 56, 48, 49, 50, 0, 0, 0, 0, 2, 117,
    147, 168, 64, 2, 135, 22, 177, 64, 2, 20, 174, 255, 64, 2, 31, 133, 58, 66, 2, 20, 174, 70, 66,
    0, 2, 0, 0, 0, 66, 0, 0, 0, 2, 119, 190, 77, 65, 2, 182, 243, 253, 64, 2, 221, 36, 78, 65, 2,
    6, 129, 3, 65, 2, 0, 0, 216, 65, 2, 0, 0, 0, 64, 2, 193, 202, 83, 65, 2, 0, 0, 224, 65, 2, 0,
    0, 184, 65, 2, 0, 0, 0, 0, 2, 0, 0, 136, 65, 2, 0, 0, 80, 65, 0, 0, 0, 0, 2, 119, 190, 77, 65,
    0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 50,
    48, 48, 48, 48, 48, 48, 48, 48, 48, 49, 51, 48, 52, 51, 52, 54, 52, 48, 50, 50, 10, 77, 82, 87,
    86, 65, 16, 77, 50, 48, 49, 56, 48, 49, 54, 0, 0, 0, 0, 2, 133, 235, 165, 64, 2, 117, 147, 172,
    64, 2, 111, 18, 223, 64, 2, 164, 112, 48, 66, 2, 154, 153, 58, 66, 0, 2, 0, 0, 4, 66, 0, 0, 0,
    2, 182, 243, 39, 65, 2, 131, 192, 98, 64, 2, 238, 124, 41, 65, 2, 213, 120, 113, 64, 2, 0, 0,
    128, 65, 2, 0, 0, 128, 63, 2, 223, 79, 47, 65, 2, 0, 0, 224, 65, 2, 0, 0, 184, 65, 2, 0, 0, 0,
    0, 2, 0, 0, 128, 65, 2, 0, 0, 0, 65, 0, 0, 0, 0, 2, 182, 243, 39, 65, 0, 0, 0, 80, 80, 48, 48,
    48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 50, 48, 48, 48, 48, 48, 48, 48,
    48, 48, 49, 51, 48, 52, 51, 52, 54, 52, 48, 50, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49,
    56, 48, 50, 49, 0, 0, 0, 0, 2, 6, 129, 137, 64, 2, 244, 253, 144, 64, 2, 119, 190, 203, 64, 2,
    205, 204, 58, 66, 2, 61, 10, 72, 66, 0, 2, 0, 0, 240, 65, 0, 0, 0, 2, 166, 155, 42, 65, 2, 47,
    221, 200, 64, 2, 207, 247, 41, 65, 2, 233, 38, 201, 64, 2, 0, 0, 144, 65, 2, 0, 0, 64, 64, 2,
    80, 141, 43, 65, 2, 0, 0, 232, 65, 2, 0, 0, 184, 65, 2, 0, 0, 128, 63, 2, 0, 0, 128, 65, 2, 0,
    0, 64, 65, 0, 0, 0, 0, 2, 166, 155, 42, 65, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48,
    48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 50, 48, 48, 48, 48, 48, 48, 48, 48, 48, 49, 51, 48, 52,
    51, 52, 54, 52, 48, 50, 50, 10, 77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 56, 48, 50, 53, 0, 0,
    0, 0, 2, 236, 81, 192, 64, 2, 8, 172, 196, 64, 2, 25, 4, 246, 64, 2, 31, 133, 41, 66, 2, 102,
    102, 49, 66, 0, 2, 0, 0, 8, 66, 0, 0, 0, 2, 238, 124, 43, 65, 2, 82, 184, 242, 64, 2, 205, 204,
    42, 65, 2, 90, 100, 247, 64, 2, 0, 0, 136, 65, 2, 0, 0, 128, 63, 2, 141, 151, 46, 65, 2, 0, 0,
    0, 66, 2, 0, 0, 176, 65, 2, 0, 0, 0, 0, 2, 0, 0, 144, 65, 2, 0, 0, 224, 64, 0, 0, 0, 0, 2, 238,
    124, 43, 65, 0, 0, 0, 80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49,
    53, 56, 50, 48, 48, 48, 48, 48, 48, 48, 48, 48, 49, 51, 48, 52, 51, 52, 54, 52, 48, 50, 50, 10,
    77, 82, 87, 86, 65, 16, 77, 50, 48, 49, 56, 48, 51, 48, 0, 0, 0, 0, 2, 119, 190, 143, 64, 2,
    16, 88, 145, 64, 2, 115, 104, 181, 64, 2, 154, 153, 32, 66, 2, 72, 225, 36, 66, 0, 2, 0, 0,
    248, 65, 0, 0, 0, 2, 172, 28, 30, 65, 2, 94, 186, 25, 64, 2, 244, 253, 30, 65, 2, 156, 196, 32,
    64, 2, 0, 0, 32, 65, 2, 0, 0, 64, 64, 2, 209, 34, 33, 65, 2, 0, 0, 232, 65, 2, 0, 0, 176, 65,
    2, 0, 0, 64, 64, 2, 0, 0, 136, 65, 2, 0, 0, 224, 64, 0, 0, 0, 0, 2, 172, 28, 30, 65, 0, 0, 0,
    80, 80, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 54, 56, 50, 49, 53, 56, 50, 48, 48, 48,
    48, 48, 48, 48, 48, 48, 49, 51, 48, 52, 51, 52, 54, 52, 48, 50, 50, 10, 77, 82, 87, 86, 65, 16,
    77, 50, 48, 49, 56, 48, 51, 52, 0, 0, 0, 0, 2, 29, 90, 92, 64, 2, 231, 251, 97, 64, 2, 102,
    102, 146, 64, 2, 246, 40, 48, 66, 2, 61, 10, 56, 66, 0, 2, 0, 0, 240, 65, 0, 0, 0, 2, 14, 45,
    174, 64, 2, 141, 151, 14, 63, 2, 18, 131, 176, 64, 2, 6, 129, 21, 63, 2, 0, 0, 0, 65, 2, 0, 0,
    160, 64, 2, 147, 24, 208, 64, 2, 0, 0, 184, 65, 2, 0, 0, 152, 65, 2, 0, 0, 192, 64, 2, 0, 0,
    48, 65, 2, 0, 0, 192, 64, 0, 0, 0, 0, 2, 14, 45, 174, 64, 0, 0, 0,
];
