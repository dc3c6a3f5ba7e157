""" code tables of the Common Alert Message Format specification """
TAB = {'d10_t': ['Category 1 - Very dangerous winds will produce some damage. Scale 1 and Intensity 1',
           'Category 2 - Extremely dangerous winds will cause extensive damage. Scale 1 and '
           'Intensity 2',
           'Category 3 - Devastating damage will occur. Scale 1 and Intensity 3',
           'Category 4 - Catastrophic damage will occur. Scale 2 and Intensity 1',
           'Category 5 - Catastrophic damage will occur. Scale 2 and Intensity 2',
           'Category 5 - Catastrophic damage will occur. Scale 3 and Intensity 3'],
 'd11_t': ['Non-Threatening', 'Very Low', 'Low', 'Moderate', 'High', 'Extreme'],
 'd12_t': ['H0 Hard hail',
           'H1 Potentially damaging',
           'H2 Significant',
           'H3 Severe',
           'H4 Severe',
           'H5 Destructive',
           'H6 Destructive',
           'H7 Destructive',
           'H8 Destructive',
           'H9 Super Hailstorms',
           'H10 Super Hailstorms'],
 'd13_t': ['Dense fog: visibility < 20 m',
           'Thick fog: 20 m < visibility < 200 m',
           'Moderate fog: 200 m < visibility < 500 m',
           'Light fog: 500 m < visibility < 1000 m',
           'Thin fog: 1 km < visibility < 2 km',
           'Haze: 2 km < visibility < 4 km',
           'Light haze: 4 km < visibility < 10 km',
           'Clear: 10 km < visibility < 20 km',
           'Very clear: 20 km < visibility < 50 km',
           'Exceptionally clear: visibility > 50 km'],
 'd15_t': ['Minor Flooding', 'Moderate Flooding', 'Major Flooding', 'Record Flooding'],
 'd16_t': ['LAL 1 - No thunderstorms',
           'LAL 2 - Isolated thunderstorms',
           'LAL 3 - Widely scattered thunderstorms',
           'LAL 4 - Scattered thunderstorms',
           'LAL 5 - Numerous thunderstorms',
           'LAL 6 - Dry lightning'],
 'd17_t': ['Level 1 of 5: Slight fog or Mist',
           'Level 2 of 5: Slight fog',
           'Level 3 of 5: Moderate fog',
           'Level 4 of 5: Moderate fog',
           'Level 5 of 5: Thick fog'],
 'd18_t': ['D1 – Moderate Drought – PDSI = -2.0 to -2.9',
           'D2 – Severe Drought – PDSI = -3.0 to -3.9',
           'D3 – Extreme Drought – PDSI = -4.0 to -4.9',
           'D4 – Exceptional Drought – PDSI = -5.0 or less'],
 'd19_t': ['Low', 'Moderate', 'Considerable', 'High', 'Very high'],
 'd1_t': ['1.0-1.9',
          '2.0-2.9',
          '3.0-3.9',
          '4.0-4.9',
          '5.0-5.9',
          '6.0-6.9',
          '7.0-7.9',
          '8.0-8.9',
          '9.0-'],
 'd20_t': ['Less than 1 mm ash thickness',
           '1-5 mm ash thickness',
           '5-100 mm ash thickness',
           '100-300 mm ash thickness',
           '> 300 mm ash thickness'],
 'd21_t': ['G1 - Minor', 'G2 - Moderate', 'G3 - Strong', 'G4 - Severe', 'G5 - Extreme'],
 'd22_t': ['Very low threat level',
           'Low threat level',
           'Medium threat level',
           'High threat level',
           'Critical threat level'],
 'd23_t': ['Danger level 1/5 (low or none danger)',
           'Danger level 2/5 (moderate danger)',
           'Danger level 3/5 (considerable danger)',
           'Danger level 4/5 (high danger)',
           'Danger level 5/5 (very high danger)'],
 'd24_t': ['Excellent water quality',
           'Good water quality',
           'Poor water quality',
           'Very poor water quality',
           'Suitable for drinking purposes',
           'Unsuitable for drinking purpose'],
 'd25_t': ['Index 0-2 Low',
           'Index 3 Moderate',
           'Index 4 Moderate',
           'Index 5 High',
           'Index 6 High',
           'Index 7 High',
           'Index 8 Very high',
           'Index 9 Very high',
           'Index 10 Extreme',
           'Index 11 Extreme'],
 'd26_t': ['0-9',
           '10-20',
           '21-50',
           '51-70',
           '71-100',
           '101-125',
           '126-150',
           '151-175',
           '176-200',
           '201-250',
           '251-300',
           '301-350',
           '351-400',
           '401-450',
           '451-500',
           '501-750',
           '751-1000',
           '>1000',
           '>2000',
           '>3000',
           '>5000'],
 'd27_t': ['40<dB≤45',
           '45<dB≤50',
           '50<dB≤60',
           '60<dB≤70',
           '70<dB≤80 (loud)',
           '80<dB≤90 (very loud)',
           '90<dB≤100 (very loud)',
           '100<dB≤110 (very loud)',
           '110<dB≤120 (extremely loud)',
           '120<dB≤130 (extremely loud)',
           '130<dB≤140 (threshold of pain)',
           'dB>140 (pain)'],
 'd28_t': ['0-50 Good',
           '51-100 Moderate',
           '101-150 Unhealthy for sensitive groups',
           '151-200 Unhealthy',
           '201-300 Very unhealthy',
           '301-500 Hazardous'],
 'd29_t': ['0 < duration < 30 min',
           '30 min ≤ duration < 45 min',
           '45 min ≤ duration < 1 h',
           '1 h ≤ duration < 1h 30min',
           '1h 30min ≤ duration < 2 h',
           '2 h ≤ duration < 3 h',
           '3 h ≤ duration < 4 h',
           '4 h ≤ duration < 5 h',
           '5 h ≤ duration < 10 h',
           '10 h ≤ duration < 24 h',
           '24 h ≤ duration < 2 days',
           '2 days ≤ duration < 7 days',
           '7 days ≤ duration',
           'Unknown'],
 'd2_t': ['2', '3', '4', '5 Weak', '5 Strong', '6 Weak', '6 Strong', '7'],
 'd30_t': ['Unknown',
           'Level 0 Deviation',
           'Level 1 Anomaly',
           'Level 2 Incident',
           'Level 3 Serious incident',
           'Level 4 Accident with local consequences',
           'Level 5 Accident with wider consequences',
           'Level 6 Serious accident',
           'Level 7 Major accident'],
 'd31_t': ['Explosives',
           'Flammable gases',
           'Flammable aerosols and aerosols',
           'Oxidizing gases',
           'Gases under pressure',
           'Flammable liquids',
           'Flammable solids',
           'Self-reactive substance/mixture',
           'Pyrophoric liquids',
           'Pyrophoric solids',
           'Self-heating substance/mixture',
           'Water-reactive',
           'Oxidising liquids',
           'Oxidising solids',
           'Organic peroxides',
           'Corrosive to metals'],
 'd32_t': ['Biohazard Level 1/4',
           'Biohazard Level 2/4',
           'Biohazard Level 3/4',
           'Biohazard Level 4/4'],
 'd33_t': ['Biological agents', 'Biotoxins', 'Blood and blood products', 'Environmental specimens'],
 'd34_t': ['PE1 - Mass explosion hazard',
           'PE2 - Serious projectile hazard',
           'PE3 - Fire and a minor blast/projection hazard',
           'PE4 - Fire or slight explosion hazard'],
 'd36_t': ['Scale 1 and Intensity 1',
           'Scale 1 and Intensity 2',
           'Scale 1 and Intensity 3',
           'Scale 2 and Intensity 1',
           'Scale 2 and Intensity 2'],
 'd4_t': [0.25, 0.5, 0.75, 1, 2, 3, 5, 10, 20, 30, 40, 50, 70, 100, 150, 200],
 'd5_t': ['H<=0.5',
          '0.5<H<=1.0',
          '1.0<H<=1.5',
          '1.5<H<=2.0',
          '2.0<H<=3.0',
          '3.0<H<=5.0',
          '5.0<H<=10.0',
          'H>10.0'],
 'd6_t': ['T<=-30',
          '-30<T<=-25',
          '-25<T<=-20',
          '-20<T<=-15',
          '-15<T<=-10',
          '-10<T<=-5',
          '-5<T<=0',
          '0<T<=5',
          '5<T<=10',
          '10<T<=15',
          '15<T<=20',
          '20<T<=25',
          '25<T<=30',
          '30<T<=35',
          '35<T<=45',
          'T>45'],
 'd7_t': ['Category 1/5 hurricane',
          'Category 2/5 hurricane',
          'Category 3/5 hurricane',
          'Category 4/5 hurricane',
          'Category 5/5 hurricane'],
 'd8_t': ['0<v<1 km/h',
          '1<v<6 km/h',
          '6<v<11 km/h',
          '12<v<19 km/h',
          '20<v<30 km/h',
          '31<v<39 km/h',
          '40<v<50 km/h',
          '51<v<61 km/h',
          '62<v<74 km/h',
          '75<v<88 km/h',
          '89<v<102 km/h',
          '103<v<117 km/h',
          'v>118 km/h'],
 'd9_t': ['p<=2.5',
          '2.5<p<=7.5',
          '7.5<p<=10',
          '10<p<=20',
          '20<p<=30',
          '30<p<=50',
          '50<p<=80',
          '80<p'],
 'dow_t': ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday'],
 'duration_t': ['unknown', 'duration<6h', '6h<duration<12h', '12h<duration<24h'],
 'guid_la_t': {0: '(not specified)',
               1: 'Take the best immediate action to save your life.',
               127: 'Take the best immediate action to save your life.',
               128: 'Missile launched.',
               129: 'Missile passed.',
               130: 'It is believed that the previous missile has dropped in the sea.',
               131: 'It is believed that the previous missile will not come to Japan.',
               132: 'Take shelter immediately.',
               133: 'The previous missile has been intercepted and destroyed.',
               134: 'Missile dropped',
               135: 'It is believed that the previous missile will not drop in Japan.',
               136: 'This is a test message for J-Alert.',
               255: 'Take immediate action to save your life.'},
 'guid_t': {0: '(not specified)',
            1: 'Under/inside a solid structure',
            2: '3rd floor or higher',
            3: 'Underground',
            4: 'Mountain',
            5: 'Water area',
            6: 'Building where chemicals are handled, such as a factory',
            7: 'Cliffs and areas at risk of collapse',
            127: 'Take the best immediate action to save your life',
            255: 'Take the best immediate action to save your life'},
 'inst_t': ['(not specified)', 'stay', 'move to/toward', 'keep away from'],
 'mt_t': ['Test', 'Alert', 'Update', 'All Clear'],
 'r_t': [0.216,
         0.292,
         0.395,
         0.535,
         0.723,
         0.978,
         1.322,
         1.788,
         2.418,
         3.269,
         4.421,
         5.979,
         8.085,
         10.933,
         14.784,
         19.992,
         27.035,
         36.559,
         49.439,
         66.855,
         90.407,
         122.255,
         165.324,
         223.564,
         302.322,
         408.824,
         552.846,
         747.603,
         1010.97,
         1367.116,
         1848.727,
         2500.0],
 'severity_t': ['unknown', 'moderate', 'severe', 'extreme']}
