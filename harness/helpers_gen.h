/* generated: wrappers of the fixed-distance rotations */
typedef uint8_t (*fx8)(uint8_t);
typedef uint16_t (*fx16)(uint16_t);
typedef uint32_t (*fx32)(uint32_t);
typedef uint64_t (*fx64)(uint64_t);
static uint8_t f_ROL8_1(uint8_t x){ return ROL8_1(x); }
static uint8_t f_ROL8_2(uint8_t x){ return ROL8_2(x); }
static uint8_t f_ROL8_3(uint8_t x){ return ROL8_3(x); }
static uint8_t f_ROL8_4(uint8_t x){ return ROL8_4(x); }
static uint8_t f_ROL8_5(uint8_t x){ return ROL8_5(x); }
static uint8_t f_ROL8_6(uint8_t x){ return ROL8_6(x); }
static uint8_t f_ROL8_7(uint8_t x){ return ROL8_7(x); }
static uint8_t f_ROR8_1(uint8_t x){ return ROR8_1(x); }
static uint8_t f_ROR8_2(uint8_t x){ return ROR8_2(x); }
static uint8_t f_ROR8_3(uint8_t x){ return ROR8_3(x); }
static uint8_t f_ROR8_4(uint8_t x){ return ROR8_4(x); }
static uint8_t f_ROR8_5(uint8_t x){ return ROR8_5(x); }
static uint8_t f_ROR8_6(uint8_t x){ return ROR8_6(x); }
static uint8_t f_ROR8_7(uint8_t x){ return ROR8_7(x); }
static uint16_t f_ROL16_01(uint16_t x){ return ROL16_01(x); }
static uint16_t f_ROL16_02(uint16_t x){ return ROL16_02(x); }
static uint16_t f_ROL16_03(uint16_t x){ return ROL16_03(x); }
static uint16_t f_ROL16_04(uint16_t x){ return ROL16_04(x); }
static uint16_t f_ROL16_05(uint16_t x){ return ROL16_05(x); }
static uint16_t f_ROL16_06(uint16_t x){ return ROL16_06(x); }
static uint16_t f_ROL16_07(uint16_t x){ return ROL16_07(x); }
static uint16_t f_ROL16_08(uint16_t x){ return ROL16_08(x); }
static uint16_t f_ROL16_09(uint16_t x){ return ROL16_09(x); }
static uint16_t f_ROL16_10(uint16_t x){ return ROL16_10(x); }
static uint16_t f_ROL16_11(uint16_t x){ return ROL16_11(x); }
static uint16_t f_ROL16_12(uint16_t x){ return ROL16_12(x); }
static uint16_t f_ROL16_13(uint16_t x){ return ROL16_13(x); }
static uint16_t f_ROL16_14(uint16_t x){ return ROL16_14(x); }
static uint16_t f_ROL16_15(uint16_t x){ return ROL16_15(x); }
static uint16_t f_ROR16_01(uint16_t x){ return ROR16_01(x); }
static uint16_t f_ROR16_02(uint16_t x){ return ROR16_02(x); }
static uint16_t f_ROR16_03(uint16_t x){ return ROR16_03(x); }
static uint16_t f_ROR16_04(uint16_t x){ return ROR16_04(x); }
static uint16_t f_ROR16_05(uint16_t x){ return ROR16_05(x); }
static uint16_t f_ROR16_06(uint16_t x){ return ROR16_06(x); }
static uint16_t f_ROR16_07(uint16_t x){ return ROR16_07(x); }
static uint16_t f_ROR16_08(uint16_t x){ return ROR16_08(x); }
static uint16_t f_ROR16_09(uint16_t x){ return ROR16_09(x); }
static uint16_t f_ROR16_10(uint16_t x){ return ROR16_10(x); }
static uint16_t f_ROR16_11(uint16_t x){ return ROR16_11(x); }
static uint16_t f_ROR16_12(uint16_t x){ return ROR16_12(x); }
static uint16_t f_ROR16_13(uint16_t x){ return ROR16_13(x); }
static uint16_t f_ROR16_14(uint16_t x){ return ROR16_14(x); }
static uint16_t f_ROR16_15(uint16_t x){ return ROR16_15(x); }
static uint32_t f_ROL32_01(uint32_t x){ return ROL32_01(x); }
static uint32_t f_ROL32_02(uint32_t x){ return ROL32_02(x); }
static uint32_t f_ROL32_03(uint32_t x){ return ROL32_03(x); }
static uint32_t f_ROL32_04(uint32_t x){ return ROL32_04(x); }
static uint32_t f_ROL32_05(uint32_t x){ return ROL32_05(x); }
static uint32_t f_ROL32_06(uint32_t x){ return ROL32_06(x); }
static uint32_t f_ROL32_07(uint32_t x){ return ROL32_07(x); }
static uint32_t f_ROL32_08(uint32_t x){ return ROL32_08(x); }
static uint32_t f_ROL32_09(uint32_t x){ return ROL32_09(x); }
static uint32_t f_ROL32_10(uint32_t x){ return ROL32_10(x); }
static uint32_t f_ROL32_11(uint32_t x){ return ROL32_11(x); }
static uint32_t f_ROL32_12(uint32_t x){ return ROL32_12(x); }
static uint32_t f_ROL32_13(uint32_t x){ return ROL32_13(x); }
static uint32_t f_ROL32_14(uint32_t x){ return ROL32_14(x); }
static uint32_t f_ROL32_15(uint32_t x){ return ROL32_15(x); }
static uint32_t f_ROL32_16(uint32_t x){ return ROL32_16(x); }
static uint32_t f_ROL32_17(uint32_t x){ return ROL32_17(x); }
static uint32_t f_ROL32_18(uint32_t x){ return ROL32_18(x); }
static uint32_t f_ROL32_19(uint32_t x){ return ROL32_19(x); }
static uint32_t f_ROL32_20(uint32_t x){ return ROL32_20(x); }
static uint32_t f_ROL32_21(uint32_t x){ return ROL32_21(x); }
static uint32_t f_ROL32_22(uint32_t x){ return ROL32_22(x); }
static uint32_t f_ROL32_23(uint32_t x){ return ROL32_23(x); }
static uint32_t f_ROL32_24(uint32_t x){ return ROL32_24(x); }
static uint32_t f_ROL32_25(uint32_t x){ return ROL32_25(x); }
static uint32_t f_ROL32_26(uint32_t x){ return ROL32_26(x); }
static uint32_t f_ROL32_27(uint32_t x){ return ROL32_27(x); }
static uint32_t f_ROL32_28(uint32_t x){ return ROL32_28(x); }
static uint32_t f_ROL32_29(uint32_t x){ return ROL32_29(x); }
static uint32_t f_ROL32_30(uint32_t x){ return ROL32_30(x); }
static uint32_t f_ROL32_31(uint32_t x){ return ROL32_31(x); }
static uint32_t f_ROR32_01(uint32_t x){ return ROR32_01(x); }
static uint32_t f_ROR32_02(uint32_t x){ return ROR32_02(x); }
static uint32_t f_ROR32_03(uint32_t x){ return ROR32_03(x); }
static uint32_t f_ROR32_04(uint32_t x){ return ROR32_04(x); }
static uint32_t f_ROR32_05(uint32_t x){ return ROR32_05(x); }
static uint32_t f_ROR32_06(uint32_t x){ return ROR32_06(x); }
static uint32_t f_ROR32_07(uint32_t x){ return ROR32_07(x); }
static uint32_t f_ROR32_08(uint32_t x){ return ROR32_08(x); }
static uint32_t f_ROR32_09(uint32_t x){ return ROR32_09(x); }
static uint32_t f_ROR32_10(uint32_t x){ return ROR32_10(x); }
static uint32_t f_ROR32_11(uint32_t x){ return ROR32_11(x); }
static uint32_t f_ROR32_12(uint32_t x){ return ROR32_12(x); }
static uint32_t f_ROR32_13(uint32_t x){ return ROR32_13(x); }
static uint32_t f_ROR32_14(uint32_t x){ return ROR32_14(x); }
static uint32_t f_ROR32_15(uint32_t x){ return ROR32_15(x); }
static uint32_t f_ROR32_16(uint32_t x){ return ROR32_16(x); }
static uint32_t f_ROR32_17(uint32_t x){ return ROR32_17(x); }
static uint32_t f_ROR32_18(uint32_t x){ return ROR32_18(x); }
static uint32_t f_ROR32_19(uint32_t x){ return ROR32_19(x); }
static uint32_t f_ROR32_20(uint32_t x){ return ROR32_20(x); }
static uint32_t f_ROR32_21(uint32_t x){ return ROR32_21(x); }
static uint32_t f_ROR32_22(uint32_t x){ return ROR32_22(x); }
static uint32_t f_ROR32_23(uint32_t x){ return ROR32_23(x); }
static uint32_t f_ROR32_24(uint32_t x){ return ROR32_24(x); }
static uint32_t f_ROR32_25(uint32_t x){ return ROR32_25(x); }
static uint32_t f_ROR32_26(uint32_t x){ return ROR32_26(x); }
static uint32_t f_ROR32_27(uint32_t x){ return ROR32_27(x); }
static uint32_t f_ROR32_28(uint32_t x){ return ROR32_28(x); }
static uint32_t f_ROR32_29(uint32_t x){ return ROR32_29(x); }
static uint32_t f_ROR32_30(uint32_t x){ return ROR32_30(x); }
static uint32_t f_ROR32_31(uint32_t x){ return ROR32_31(x); }
static uint64_t f_ROL64_01(uint64_t x){ return ROL64_01(x); }
static uint64_t f_ROL64_02(uint64_t x){ return ROL64_02(x); }
static uint64_t f_ROL64_03(uint64_t x){ return ROL64_03(x); }
static uint64_t f_ROL64_04(uint64_t x){ return ROL64_04(x); }
static uint64_t f_ROL64_05(uint64_t x){ return ROL64_05(x); }
static uint64_t f_ROL64_06(uint64_t x){ return ROL64_06(x); }
static uint64_t f_ROL64_07(uint64_t x){ return ROL64_07(x); }
static uint64_t f_ROL64_08(uint64_t x){ return ROL64_08(x); }
static uint64_t f_ROL64_09(uint64_t x){ return ROL64_09(x); }
static uint64_t f_ROL64_10(uint64_t x){ return ROL64_10(x); }
static uint64_t f_ROL64_11(uint64_t x){ return ROL64_11(x); }
static uint64_t f_ROL64_12(uint64_t x){ return ROL64_12(x); }
static uint64_t f_ROL64_13(uint64_t x){ return ROL64_13(x); }
static uint64_t f_ROL64_14(uint64_t x){ return ROL64_14(x); }
static uint64_t f_ROL64_15(uint64_t x){ return ROL64_15(x); }
static uint64_t f_ROL64_16(uint64_t x){ return ROL64_16(x); }
static uint64_t f_ROL64_17(uint64_t x){ return ROL64_17(x); }
static uint64_t f_ROL64_18(uint64_t x){ return ROL64_18(x); }
static uint64_t f_ROL64_19(uint64_t x){ return ROL64_19(x); }
static uint64_t f_ROL64_20(uint64_t x){ return ROL64_20(x); }
static uint64_t f_ROL64_21(uint64_t x){ return ROL64_21(x); }
static uint64_t f_ROL64_22(uint64_t x){ return ROL64_22(x); }
static uint64_t f_ROL64_23(uint64_t x){ return ROL64_23(x); }
static uint64_t f_ROL64_24(uint64_t x){ return ROL64_24(x); }
static uint64_t f_ROL64_25(uint64_t x){ return ROL64_25(x); }
static uint64_t f_ROL64_26(uint64_t x){ return ROL64_26(x); }
static uint64_t f_ROL64_27(uint64_t x){ return ROL64_27(x); }
static uint64_t f_ROL64_28(uint64_t x){ return ROL64_28(x); }
static uint64_t f_ROL64_29(uint64_t x){ return ROL64_29(x); }
static uint64_t f_ROL64_30(uint64_t x){ return ROL64_30(x); }
static uint64_t f_ROL64_31(uint64_t x){ return ROL64_31(x); }
static uint64_t f_ROL64_32(uint64_t x){ return ROL64_32(x); }
static uint64_t f_ROL64_33(uint64_t x){ return ROL64_33(x); }
static uint64_t f_ROL64_34(uint64_t x){ return ROL64_34(x); }
static uint64_t f_ROL64_35(uint64_t x){ return ROL64_35(x); }
static uint64_t f_ROL64_36(uint64_t x){ return ROL64_36(x); }
static uint64_t f_ROL64_37(uint64_t x){ return ROL64_37(x); }
static uint64_t f_ROL64_38(uint64_t x){ return ROL64_38(x); }
static uint64_t f_ROL64_39(uint64_t x){ return ROL64_39(x); }
static uint64_t f_ROL64_40(uint64_t x){ return ROL64_40(x); }
static uint64_t f_ROL64_41(uint64_t x){ return ROL64_41(x); }
static uint64_t f_ROL64_42(uint64_t x){ return ROL64_42(x); }
static uint64_t f_ROL64_43(uint64_t x){ return ROL64_43(x); }
static uint64_t f_ROL64_44(uint64_t x){ return ROL64_44(x); }
static uint64_t f_ROL64_45(uint64_t x){ return ROL64_45(x); }
static uint64_t f_ROL64_46(uint64_t x){ return ROL64_46(x); }
static uint64_t f_ROL64_47(uint64_t x){ return ROL64_47(x); }
static uint64_t f_ROL64_48(uint64_t x){ return ROL64_48(x); }
static uint64_t f_ROL64_49(uint64_t x){ return ROL64_49(x); }
static uint64_t f_ROL64_50(uint64_t x){ return ROL64_50(x); }
static uint64_t f_ROL64_51(uint64_t x){ return ROL64_51(x); }
static uint64_t f_ROL64_52(uint64_t x){ return ROL64_52(x); }
static uint64_t f_ROL64_53(uint64_t x){ return ROL64_53(x); }
static uint64_t f_ROL64_54(uint64_t x){ return ROL64_54(x); }
static uint64_t f_ROL64_55(uint64_t x){ return ROL64_55(x); }
static uint64_t f_ROL64_56(uint64_t x){ return ROL64_56(x); }
static uint64_t f_ROL64_57(uint64_t x){ return ROL64_57(x); }
static uint64_t f_ROL64_58(uint64_t x){ return ROL64_58(x); }
static uint64_t f_ROL64_59(uint64_t x){ return ROL64_59(x); }
static uint64_t f_ROL64_60(uint64_t x){ return ROL64_60(x); }
static uint64_t f_ROL64_61(uint64_t x){ return ROL64_61(x); }
static uint64_t f_ROL64_62(uint64_t x){ return ROL64_62(x); }
static uint64_t f_ROL64_63(uint64_t x){ return ROL64_63(x); }
static uint64_t f_ROR64_01(uint64_t x){ return ROR64_01(x); }
static uint64_t f_ROR64_02(uint64_t x){ return ROR64_02(x); }
static uint64_t f_ROR64_03(uint64_t x){ return ROR64_03(x); }
static uint64_t f_ROR64_04(uint64_t x){ return ROR64_04(x); }
static uint64_t f_ROR64_05(uint64_t x){ return ROR64_05(x); }
static uint64_t f_ROR64_06(uint64_t x){ return ROR64_06(x); }
static uint64_t f_ROR64_07(uint64_t x){ return ROR64_07(x); }
static uint64_t f_ROR64_08(uint64_t x){ return ROR64_08(x); }
static uint64_t f_ROR64_09(uint64_t x){ return ROR64_09(x); }
static uint64_t f_ROR64_10(uint64_t x){ return ROR64_10(x); }
static uint64_t f_ROR64_11(uint64_t x){ return ROR64_11(x); }
static uint64_t f_ROR64_12(uint64_t x){ return ROR64_12(x); }
static uint64_t f_ROR64_13(uint64_t x){ return ROR64_13(x); }
static uint64_t f_ROR64_14(uint64_t x){ return ROR64_14(x); }
static uint64_t f_ROR64_15(uint64_t x){ return ROR64_15(x); }
static uint64_t f_ROR64_16(uint64_t x){ return ROR64_16(x); }
static uint64_t f_ROR64_17(uint64_t x){ return ROR64_17(x); }
static uint64_t f_ROR64_18(uint64_t x){ return ROR64_18(x); }
static uint64_t f_ROR64_19(uint64_t x){ return ROR64_19(x); }
static uint64_t f_ROR64_20(uint64_t x){ return ROR64_20(x); }
static uint64_t f_ROR64_21(uint64_t x){ return ROR64_21(x); }
static uint64_t f_ROR64_22(uint64_t x){ return ROR64_22(x); }
static uint64_t f_ROR64_23(uint64_t x){ return ROR64_23(x); }
static uint64_t f_ROR64_24(uint64_t x){ return ROR64_24(x); }
static uint64_t f_ROR64_25(uint64_t x){ return ROR64_25(x); }
static uint64_t f_ROR64_26(uint64_t x){ return ROR64_26(x); }
static uint64_t f_ROR64_27(uint64_t x){ return ROR64_27(x); }
static uint64_t f_ROR64_28(uint64_t x){ return ROR64_28(x); }
static uint64_t f_ROR64_29(uint64_t x){ return ROR64_29(x); }
static uint64_t f_ROR64_30(uint64_t x){ return ROR64_30(x); }
static uint64_t f_ROR64_31(uint64_t x){ return ROR64_31(x); }
static uint64_t f_ROR64_32(uint64_t x){ return ROR64_32(x); }
static uint64_t f_ROR64_33(uint64_t x){ return ROR64_33(x); }
static uint64_t f_ROR64_34(uint64_t x){ return ROR64_34(x); }
static uint64_t f_ROR64_35(uint64_t x){ return ROR64_35(x); }
static uint64_t f_ROR64_36(uint64_t x){ return ROR64_36(x); }
static uint64_t f_ROR64_37(uint64_t x){ return ROR64_37(x); }
static uint64_t f_ROR64_38(uint64_t x){ return ROR64_38(x); }
static uint64_t f_ROR64_39(uint64_t x){ return ROR64_39(x); }
static uint64_t f_ROR64_40(uint64_t x){ return ROR64_40(x); }
static uint64_t f_ROR64_41(uint64_t x){ return ROR64_41(x); }
static uint64_t f_ROR64_42(uint64_t x){ return ROR64_42(x); }
static uint64_t f_ROR64_43(uint64_t x){ return ROR64_43(x); }
static uint64_t f_ROR64_44(uint64_t x){ return ROR64_44(x); }
static uint64_t f_ROR64_45(uint64_t x){ return ROR64_45(x); }
static uint64_t f_ROR64_46(uint64_t x){ return ROR64_46(x); }
static uint64_t f_ROR64_47(uint64_t x){ return ROR64_47(x); }
static uint64_t f_ROR64_48(uint64_t x){ return ROR64_48(x); }
static uint64_t f_ROR64_49(uint64_t x){ return ROR64_49(x); }
static uint64_t f_ROR64_50(uint64_t x){ return ROR64_50(x); }
static uint64_t f_ROR64_51(uint64_t x){ return ROR64_51(x); }
static uint64_t f_ROR64_52(uint64_t x){ return ROR64_52(x); }
static uint64_t f_ROR64_53(uint64_t x){ return ROR64_53(x); }
static uint64_t f_ROR64_54(uint64_t x){ return ROR64_54(x); }
static uint64_t f_ROR64_55(uint64_t x){ return ROR64_55(x); }
static uint64_t f_ROR64_56(uint64_t x){ return ROR64_56(x); }
static uint64_t f_ROR64_57(uint64_t x){ return ROR64_57(x); }
static uint64_t f_ROR64_58(uint64_t x){ return ROR64_58(x); }
static uint64_t f_ROR64_59(uint64_t x){ return ROR64_59(x); }
static uint64_t f_ROR64_60(uint64_t x){ return ROR64_60(x); }
static uint64_t f_ROR64_61(uint64_t x){ return ROR64_61(x); }
static uint64_t f_ROR64_62(uint64_t x){ return ROR64_62(x); }
static uint64_t f_ROR64_63(uint64_t x){ return ROR64_63(x); }
static const fx8 ROL8_fixed[7]={f_ROL8_1,f_ROL8_2,f_ROL8_3,f_ROL8_4,f_ROL8_5,f_ROL8_6,f_ROL8_7};
static const fx8 ROR8_fixed[7]={f_ROR8_1,f_ROR8_2,f_ROR8_3,f_ROR8_4,f_ROR8_5,f_ROR8_6,f_ROR8_7};
static const fx16 ROL16_fixed[15]={f_ROL16_01,f_ROL16_02,f_ROL16_03,f_ROL16_04,f_ROL16_05,f_ROL16_06,f_ROL16_07,f_ROL16_08,f_ROL16_09,f_ROL16_10,f_ROL16_11,f_ROL16_12,f_ROL16_13,f_ROL16_14,f_ROL16_15};
static const fx16 ROR16_fixed[15]={f_ROR16_01,f_ROR16_02,f_ROR16_03,f_ROR16_04,f_ROR16_05,f_ROR16_06,f_ROR16_07,f_ROR16_08,f_ROR16_09,f_ROR16_10,f_ROR16_11,f_ROR16_12,f_ROR16_13,f_ROR16_14,f_ROR16_15};
static const fx32 ROL32_fixed[31]={f_ROL32_01,f_ROL32_02,f_ROL32_03,f_ROL32_04,f_ROL32_05,f_ROL32_06,f_ROL32_07,f_ROL32_08,f_ROL32_09,f_ROL32_10,f_ROL32_11,f_ROL32_12,f_ROL32_13,f_ROL32_14,f_ROL32_15,f_ROL32_16,f_ROL32_17,f_ROL32_18,f_ROL32_19,f_ROL32_20,f_ROL32_21,f_ROL32_22,f_ROL32_23,f_ROL32_24,f_ROL32_25,f_ROL32_26,f_ROL32_27,f_ROL32_28,f_ROL32_29,f_ROL32_30,f_ROL32_31};
static const fx32 ROR32_fixed[31]={f_ROR32_01,f_ROR32_02,f_ROR32_03,f_ROR32_04,f_ROR32_05,f_ROR32_06,f_ROR32_07,f_ROR32_08,f_ROR32_09,f_ROR32_10,f_ROR32_11,f_ROR32_12,f_ROR32_13,f_ROR32_14,f_ROR32_15,f_ROR32_16,f_ROR32_17,f_ROR32_18,f_ROR32_19,f_ROR32_20,f_ROR32_21,f_ROR32_22,f_ROR32_23,f_ROR32_24,f_ROR32_25,f_ROR32_26,f_ROR32_27,f_ROR32_28,f_ROR32_29,f_ROR32_30,f_ROR32_31};
static const fx64 ROL64_fixed[63]={f_ROL64_01,f_ROL64_02,f_ROL64_03,f_ROL64_04,f_ROL64_05,f_ROL64_06,f_ROL64_07,f_ROL64_08,f_ROL64_09,f_ROL64_10,f_ROL64_11,f_ROL64_12,f_ROL64_13,f_ROL64_14,f_ROL64_15,f_ROL64_16,f_ROL64_17,f_ROL64_18,f_ROL64_19,f_ROL64_20,f_ROL64_21,f_ROL64_22,f_ROL64_23,f_ROL64_24,f_ROL64_25,f_ROL64_26,f_ROL64_27,f_ROL64_28,f_ROL64_29,f_ROL64_30,f_ROL64_31,f_ROL64_32,f_ROL64_33,f_ROL64_34,f_ROL64_35,f_ROL64_36,f_ROL64_37,f_ROL64_38,f_ROL64_39,f_ROL64_40,f_ROL64_41,f_ROL64_42,f_ROL64_43,f_ROL64_44,f_ROL64_45,f_ROL64_46,f_ROL64_47,f_ROL64_48,f_ROL64_49,f_ROL64_50,f_ROL64_51,f_ROL64_52,f_ROL64_53,f_ROL64_54,f_ROL64_55,f_ROL64_56,f_ROL64_57,f_ROL64_58,f_ROL64_59,f_ROL64_60,f_ROL64_61,f_ROL64_62,f_ROL64_63};
static const fx64 ROR64_fixed[63]={f_ROR64_01,f_ROR64_02,f_ROR64_03,f_ROR64_04,f_ROR64_05,f_ROR64_06,f_ROR64_07,f_ROR64_08,f_ROR64_09,f_ROR64_10,f_ROR64_11,f_ROR64_12,f_ROR64_13,f_ROR64_14,f_ROR64_15,f_ROR64_16,f_ROR64_17,f_ROR64_18,f_ROR64_19,f_ROR64_20,f_ROR64_21,f_ROR64_22,f_ROR64_23,f_ROR64_24,f_ROR64_25,f_ROR64_26,f_ROR64_27,f_ROR64_28,f_ROR64_29,f_ROR64_30,f_ROR64_31,f_ROR64_32,f_ROR64_33,f_ROR64_34,f_ROR64_35,f_ROR64_36,f_ROR64_37,f_ROR64_38,f_ROR64_39,f_ROR64_40,f_ROR64_41,f_ROR64_42,f_ROR64_43,f_ROR64_44,f_ROR64_45,f_ROR64_46,f_ROR64_47,f_ROR64_48,f_ROR64_49,f_ROR64_50,f_ROR64_51,f_ROR64_52,f_ROR64_53,f_ROR64_54,f_ROR64_55,f_ROR64_56,f_ROR64_57,f_ROR64_58,f_ROR64_59,f_ROR64_60,f_ROR64_61,f_ROR64_62,f_ROR64_63};
